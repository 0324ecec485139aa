// Monitor of the C interface of the generated wrapper: every function is resolved by name in the shared object given
// by --only and judged scalar by scalar and element by element, with guard words around outputs.
#include "opts.h"
#include <dlfcn.h>

static void* so;
static bool contract = false;  // the build may contract products and sums
static std::atomic<uint64_t> n_scalar(0), n_array(0);
static uint64_t n_fn = 0;
template <class F> static F sym(const std::string& n) {
  F f = (F)dlsym(so, n.c_str());
  if (!f) viol("missing " + n, "the library has no function " + n, "");
  else ++n_fn;
  return f;
}
template <class T> static bool same(T a, T b) { return bits(a) == bits(b) || (a != a && b != b); }
template <class T> static T ref_sqrt(T x) { return std::sqrt(x); }
// Results of contracted builds may differ by rounding; they are judged by the accuracy bounds.
template <class T> static bool near1(int id, T x, T got, T want);
template <> bool near1<double>(int id, double x, double got, double want) { return same(got, want) || ((id == SIN || id == COS) && !trig_dom(x)) || (id < NIDS && fabs(got - want) <= 2e-15 * fabs(want) + 1e-15); }
template <> bool near1<float>(int id, float x, float got, float want) { return same(got, want) || ((id == SIN || id == COS) && !trig_dom(x)) || (id < NIDS && fabsf(got - want) <= 1.2e-5f * fabsf(want) + 1e-6f); }

static const uint64_t GUARD = 0x5a5aa5a55a5aa5a5ULL;
template <class T> struct Out {  // an output with guard words around it
  std::vector<T> v; size_t n;
  T* reset(size_t k, Rng& g) {
    n = k; v.assign(k + 32, frombits((typename Fmt<T>::U)GUARD, T()));
    (void)g;
    return &v[16];
  }
  bool intact() const { for (size_t i = 0; i < v.size(); ++i) if ((i < 16 || i >= 16 + n) && bits(v[i]) != (typename Fmt<T>::U)GUARD) return false; return true; }
};
static std::vector<size_t> sizes(Rng& g) {
  std::vector<size_t> s;
  for (size_t i = 0; i <= 70; ++i) s.push_back(i);
  for (int i = 0; i < 6; ++i) s.push_back(71 + g.below(5000));
  s.push_back(70000 + g.below(1000));
  return s;
}
template <class T> static T value(Rng& g, const Source<T>& s) { return g.below(10) ? s.one(g) : special_value<T>(g); }

template <class T> static void unary(const char* name, T (*ref)(T), int id, uint64_t stream) {
  std::string base = std::string("vdt_") + name + Sel<T>::suf();
  typedef T (*S)(T); typedef void (*V)(const T*, T*, long);
  S s = sym<S>(base); V v = sym<V>(base + "v");
  if (!s || !v) return;
  Source<T> src; src.init(id, o_lits);
  Rng g(o_seed, stream, sizeof(T));
  for (uint64_t i = 0; i < o_chunks * 1000; ++i) {
    T x = value<T>(g, src), a = s(x), b = ref(x);
    ++n_scalar;
    if (i == 0) rep_sample(FMT("%s(%.17g) = %.17g%s", base.c_str(), (double)x, (double)a, o_cfg.c_str()));
    if (contract ? !near1<T>(id, x, a, b) : !same(a, b)) viol(base, FMT("%s(%.17g) = %.17g, expected %.17g", base.c_str(), (double)x, (double)a, (double)b), hexb(x));
  }
  Out<T> o;
  for (uint64_t rep = 0; rep < 1 + o_chunks / 40; ++rep)
  for (size_t n : sizes(g)) {
    std::vector<T> x(n + 1);
    for (size_t i = 0; i < n; ++i) x[i] = value<T>(g, src);
    std::vector<T> keep = x;
    T* p = o.reset(n, g);
    v(x.data(), p, (long)n);
    n_array += n;
    for (size_t i = 0; i < n; ++i) {
      T b = ref(x[i]);
      if (contract ? !near1<T>(id, x[i], p[i], b) : !same(p[i], b)) { viol(base + "v", FMT("%sv element %zu of %zu: argument %.17g, result %.17g, expected %.17g", base.c_str(), i, n, (double)x[i], (double)p[i], (double)b), hexb(x[i])); break; }
    }
    if (!o.intact()) viol(base + "v outside", FMT("%sv with %zu elements writes outside its output", base.c_str(), n), "");
    if (memcmp(keep.data(), x.data(), n * sizeof(T))) viol(base + "v input", base + "v changes its input", "");
  }
}
template <class T> static void binary(const char* name, T (*ref)(T, T), uint64_t stream, bool div) {
  std::string base = std::string("vdt_") + name + Sel<T>::suf();
  typedef T (*S)(T, T); typedef void (*V)(const T*, const T*, T*, long);
  S s = sym<S>(base); V v = sym<V>(base + "v");
  if (!s || !v) return;
  Source<T> src; src.init(NIDS, o_lits);
  Rng g(o_seed, stream, sizeof(T));
  auto arg = [&]() { return g.below(2) ? (T)g.uni(-3, 3) : value<T>(g, src); };
  auto ok = [&](T got, T want) { return same(got, want) || (contract && !div && fabs((double)got - (double)want) <= (sizeof(T) == 8 ? 2e-15 : 1e-6) * (fabs((double)want) + 1e-300)); };
  for (uint64_t i = 0; i < o_chunks * 1000; ++i) {
    T x = arg(), y = arg(), a = s(x, y), b = ref(x, y);
    ++n_scalar;
    if (!ok(a, b)) viol(base, FMT("%s(%.17g, %.17g) = %.17g, expected %.17g", base.c_str(), (double)x, (double)y, (double)a, (double)b), hexb(x));
  }
  Out<T> o;
  for (uint64_t rep = 0; rep < 1 + o_chunks / 40; ++rep)
  for (size_t n : sizes(g)) {
    std::vector<T> x(n + 1), y(n + 1);
    for (size_t i = 0; i < n; ++i) { x[i] = arg(); y[i] = arg(); }
    T* p = o.reset(n, g);
    v(x.data(), y.data(), p, (long)n);
    n_array += n;
    for (size_t i = 0; i < n; ++i) {
      T b = ref(x[i], y[i]);
      if (!ok(p[i], b)) { viol(base + "v", FMT("%sv element %zu of %zu: arguments %.17g, %.17g, result %.17g, expected %.17g", base.c_str(), i, n, (double)x[i], (double)y[i], (double)p[i], (double)b), hexb(x[i])); break; }
    }
    if (!o.intact()) viol(base + "v outside", FMT("%sv with %zu elements writes outside its output", base.c_str(), n), "");
  }
}
template <class T> static T two_roundings(T x, T y, T z) { volatile T p = x * y; return p + z; }
template <class T> static T one_rounding(T x, T y, T z) { return std::fma(x, y, z); }
template <class T> static void ternary(const std::string& base, const std::string& vec, bool fused, uint64_t stream) {
  typedef T (*S)(T, T, T); typedef void (*V)(const T*, const T*, const T*, T*, long);
  S s = sym<S>(base); V v = vec.empty() ? (V)0 : sym<V>(vec);
  if (!s || (!vec.empty() && !v)) return;
  Source<T> src; src.init(NIDS, o_lits);
  Rng g(o_seed, stream, sizeof(T));
  auto arg = [&]() { return g.below(4) ? (T)g.uni(-3, 3) : value<T>(g, src); };
  auto third = [&](T x, T y) { return g.below(4) == 0 ? (T)(-(x * y) * (T)(1 + g.uni(-1e-6, 1e-6))) : arg(); };  // cancellation shows the rounding of the product
  // sums so close to the middle of two numbers that rounding twice, to a wider format in between, goes the wrong way
  const int D = std::numeric_limits<T>::digits;
  auto middle = [&](T& x, T& y, T& z) {
    const int k = D / 2 + 1 + (int)g.below(D / 2 - 2), e = (int)g.below(60) - 30;
    const T a = ldexp((T)1, -k), h = ldexp((T)1, e - D);
    z = ldexp((T)1, e) * (1 + std::numeric_limits<T>::epsilon() * (T)g.below(1000));
    x = h * (1 + a); y = 1 - a;
    if (g.below(2)) x = -x;
    if (g.below(2)) { z = -z; y = -y; }
    if (g.below(2)) std::swap(x, y);
  };
  auto ok = [&](T got, T x, T y, T z) {
    if (same(got, one_rounding<T>(x, y, z))) return fused || contract || same(got, two_roundings<T>(x, y, z));
    return !fused && same(got, two_roundings<T>(x, y, z));
  };
  for (uint64_t i = 0; i < o_chunks * 1000; ++i) {
    T x = arg(), y = arg(), z = third(x, y);
    if (g.below(8) == 0) middle(x, y, z);
    T a = s(x, y, z);
    ++n_scalar;
    if (!ok(a, x, y, z)) viol(base, FMT("%s(%.17g, %.17g, %.17g) = %.17g, expected %.17g", base.c_str(), (double)x, (double)y, (double)z, (double)a, (double)(fused ? one_rounding<T>(x, y, z) : two_roundings<T>(x, y, z))), hexb(x));
  }
  if (!v) return;
  Out<T> o;
  for (size_t n : sizes(g)) {
    std::vector<T> x(n + 1), y(n + 1), z(n + 1);
    for (size_t i = 0; i < n; ++i) { x[i] = arg(); y[i] = arg(); z[i] = third(x[i], y[i]); if (g.below(8) == 0) middle(x[i], y[i], z[i]); }
    T* p = o.reset(n, g);
    v(x.data(), y.data(), z.data(), p, (long)n);
    n_array += n;
    for (size_t i = 0; i < n; ++i)
      if (!ok(p[i], x[i], y[i], z[i])) { viol(vec, FMT("%s element %zu of %zu: %.17g * %.17g + %.17g gives %.17g", vec.c_str(), i, n, (double)x[i], (double)y[i], (double)z[i], (double)p[i]), hexb(x[i])); break; }
    if (!o.intact()) viol(vec + " outside", FMT("%s with %zu elements writes outside its output", vec.c_str(), n), "");
  }
}
template <class T> static void sincos(void (*ref)(T, T&, T&)) {
  std::string base = std::string("vdt_sincos") + Sel<T>::suf();
  typedef void (*S)(T, T*, T*); typedef void (*V)(const T*, T*, T*, long);
  S s = sym<S>(base); V v = sym<V>(base + "v");
  if (!s || !v) return;
  Source<T> src; src.init(SIN, o_lits);
  Rng g(o_seed, 2050, sizeof(T));
  for (uint64_t i = 0; i < o_chunks * 1000; ++i) {
    T x = value<T>(g, src), a, b, c, d;
    s(x, &a, &b); ref(x, c, d);
    ++n_scalar;
    if (contract ? !near1<T>(SIN, x, a, c) || !near1<T>(SIN, x, b, d) : !same(a, c) || !same(b, d)) viol(base, FMT("%s(%.17g) = %.17g, %.17g, expected %.17g, %.17g", base.c_str(), (double)x, (double)a, (double)b, (double)c, (double)d), hexb(x));
  }
  Out<T> o, q;
  for (size_t n : sizes(g)) {
    std::vector<T> x(n + 1);
    for (size_t i = 0; i < n; ++i) x[i] = value<T>(g, src);
    T *p = o.reset(n, g), *r = q.reset(n, g);
    v(x.data(), p, r, (long)n);
    n_array += 2 * n;
    for (size_t i = 0; i < n; ++i) {
      T c, d; ref(x[i], c, d);
      if (contract ? !near1<T>(SIN, x[i], p[i], c) || !near1<T>(SIN, x[i], r[i], d) : !same(p[i], c) || !same(r[i], d)) { viol(base + "v", FMT("%sv element %zu of %zu: %.17g gives %.17g, %.17g, expected %.17g, %.17g", base.c_str(), i, n, (double)x[i], (double)p[i], (double)r[i], (double)c, (double)d), hexb(x[i])); break; }
    }
    if (!o.intact() || !q.intact()) viol(base + "v outside", FMT("%sv with %zu elements writes outside its outputs", base.c_str(), n), "");
  }
}
template <class T> static T divide(T a, T b) { return a / b; }
template <class T> static T ident(T a) { return a; }
template <class T> static void all(void (*sc)(T, T&, T&)) {
  static const char* const fast[] = {"asin", "atan", "cos", "exp", "inv", "log", "sin", "isqrt"};
  for (int k = 0; k < 8; ++k)
    for (int i = 0; i < vdt_n_unary; ++i)
      if (is_fast(vdt_unary[i].name) && !strcmp(vdt_unary[i].name + 5, fast[k])) unary<T>(fast[k], Sel<T>::s(vdt_unary[i]), id_of(vdt_unary[i].name), 2000 + k);
  for (int i = 0; i < vdt_n_binary; ++i) if (!strcmp(vdt_binary[i].name, "fast_atan2")) binary<T>("atan2", Sel<T>::s(vdt_binary[i]), 2020, false);
  unary<T>("identity", ident<T>, NIDS, 2030);
  unary<T>("sqrt", ref_sqrt<T>, NIDS, 2031);
  binary<T>("div", divide<T>, 2032, true);
  std::string f = Sel<T>::suf();
  ternary<T>("vdt_fma" + f, "vdt_fma" + f + "v", false, 2033);
  ternary<T>("vdt_fmac" + f, "vdt_fmac" + f + "v", true, 2034);
  ternary<T>(sizeof(T) == 8 ? "myfmaD" : "myfmaF", "", false, 2035);
  sincos<T>(sc);
}
int main(int argc, char** argv) {
  parse_opts(argc, argv);
  contract = o_mode == "contract";
  so = dlopen(o_only.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!so) { fprintf(stderr, "%s\n", dlerror()); return 3; }
  all<double>(vdt_sincos_d);
  all<float>(vdt_sincos_f);
  rep_count("scalar calls" + o_cfg, n_scalar);
  rep_count("array elements" + o_cfg, n_array);
  rep_cell("functions resolved and called" + o_cfg, n_fn);
  rep_done();
  return 0;
}
