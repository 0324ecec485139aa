// Monitor of exact values: landmark arguments and arguments so small that f(x) = x or f(x) = 1.
#include "opts.h"

static std::atomic<uint64_t> n_land(0), n_tiny(0);
static const Unary& fn(const char* n) { for (int i = 0; i < vdt_n_unary; ++i) if (!strcmp(vdt_unary[i].name, n)) return vdt_unary[i]; exit(3); }
static std::mutex cm;
static uint64_t lands = 0;

// Scalar and every lane of an array of the given length.
template <class T> static void expect(const char* name, T x, T want, bool sign = true) {
  const Unary& u = fn(name);
  T v = Sel<T>::s(u)(x);
  ++n_land;
  { std::lock_guard<std::mutex> l(cm); ++lands; }
  rep_sample(FMT("%s%s(%g) = %.17g", name, Sel<T>::suf(), (double)x, (double)v));
  bool ok = sign ? bits(v) == bits(want) : v == want;
  if (!ok) viol(std::string(name) + Sel<T>::suf(), FMT("%s%s(%.17g) is %.17g, expected %.17g", name, Sel<T>::suf(), (double)x, (double)v, (double)want), hexb(x));
  for (uint32_t n = 1; n <= 19; ++n) {
    std::vector<T> in(n, x), out(n, (T)77);
    Sel<T>::v(u)(n, in.data(), out.data());
    n_land += n;
    for (uint32_t i = 0; i < n; ++i)
      if (!(sign ? bits(out[i]) == bits(want) : out[i] == want)) {
        viol(std::string(name) + Sel<T>::suf() + "v", FMT("%s%sv element %u of %u for %.17g is %.17g, expected %.17g", name, Sel<T>::suf(), i, n, (double)x, (double)out[i], (double)want), hexb(x));
        break;
      }
  }
}
static const char* same_fn[] = {"fast_sin", "fast_tan", "fast_asin", "fast_atan"};
template <class T> static void tiny_block(const std::vector<T>& x, Cells& c) {
  std::vector<T> out(x.size());
  for (int f = 0; f < 5; ++f) {
    const Unary& u = fn(f < 4 ? same_fn[f] : "fast_cos");
    Sel<T>::v(u)((uint32_t)x.size(), x.data(), out.data());
    for (size_t i = 0; i < x.size(); ++i) {
      T v = Sel<T>::s(u)(x[i]), want = f < 4 ? x[i] : (T)1;
      if (!(v == want)) viol(std::string(u.name) + Sel<T>::suf() + " tiny", FMT("%s%s(%.17g) is %.17g, expected %.17g", u.name, Sel<T>::suf(), (double)x[i], (double)v, (double)want), hexb(x[i]));
      if (!(out[i] == want)) viol(std::string(u.name) + Sel<T>::suf() + "v tiny", FMT("%s%sv for %.17g is %.17g, expected %.17g", u.name, Sel<T>::suf(), (double)x[i], (double)out[i], (double)want), hexb(x[i]));
    }
    n_tiny += 2 * x.size();
  }
  for (size_t i = 0; i < x.size(); ++i) c.hit(cell(x[i]));
}
template <class T> static void tiny() {
  typedef typename Fmt<T>::U U;
  const U top = bits((T)(sizeof(T) == 8 ? 1e-9 : 1e-5));
  std::vector<Cells> cells(o_threads);
  const uint64_t B = 1024;
  if (sizeof(T) == 4) {
    uint64_t off = o_seed % o_stride, total = (top - off) / o_stride + 1;
    par((total + B - 1) / B, [&](uint64_t c, unsigned t) {
      std::vector<T> x;
      for (uint64_t i = c * B; i < std::min(total, (c + 1) * B); ++i) { U b = (U)(off + i * o_stride); x.push_back(frombits(b, T())); x.push_back(-x.back()); }
      tiny_block<T>(x, cells[t]);
    });
  }
  par(o_chunks, [&](uint64_t c, unsigned t) {
    Rng g(o_seed, 900 + sizeof(T), c);
    std::vector<T> x(B);
    for (uint64_t i = 0; i < B; ++i) {
      U b = (U)((unsigned __int128)g.u64() * top >> 64);
      if (g.below(8) == 0) b = top - (U)g.below(1000);
      if (g.below(8) == 0) b = (U)1 << g.below(Fmt<T>::MB);
      if (g.below(8) == 0) b &= ~(((U)1 << g.below(Fmt<T>::MB)) - 1);
      x[i] = frombits(b > top ? top : b, T());
      if (g.below(2)) x[i] = -x[i];
    }
    tiny_block<T>(x, cells[t]);
  });
  for (unsigned i = 1; i < o_threads; ++i) cells[0].merge(cells[i]);
  rep_cell(std::string("tiny arguments") + Sel<T>::suf(), cells[0].count());
}
template <class T> static void land() {
  const T z = 0, m = -z, inf = std::numeric_limits<T>::infinity();
  const T pi = (T)PI_L, h = (T)(PI_L / 2), q = (T)(PI_L / 4);
  expect<T>("fast_exp", z, 1); expect<T>("fast_exp", m, 1);
  expect<T>("fast_log", 1, 0, false);
  expect<T>("fast_cos", z, 1); expect<T>("fast_cos", m, 1);
  expect<T>("fast_sin", z, 0, false); expect<T>("fast_sin", m, 0, false);
  const char* odd[] = {"fast_tan", "fast_asin", "fast_atan", "fast_tanh"};
  for (int i = 0; i < 4; ++i) { expect<T>(odd[i], z, z); expect<T>(odd[i], m, m); }
  expect<T>("fast_asin", 1, h); expect<T>("fast_asin", -1, -h);
  expect<T>("fast_acos", 1, 0, false); expect<T>("fast_acos", -1, pi); expect<T>("fast_acos", z, h); expect<T>("fast_acos", m, h);
  expect<T>("fast_atan", 1, q); expect<T>("fast_atan", -1, -q);
  expect<T>("fast_inv", z, inf); expect<T>("fast_inv", m, -inf); expect<T>("fast_approx_inv", z, inf); expect<T>("fast_approx_inv", m, -inf);
  expect<T>("inv", z, inf); expect<T>("inv", m, -inf);
  if (sizeof(T) == 8) { expect<T>("fast_inv", 1, 1); expect<T>("fast_inv", -1, -1); expect<T>("fast_isqrt", 1, 1); }
  expect<T>("isqrt", 1, 1); expect<T>("inv", 1, 1); expect<T>("isqrt", 4, (T).5); expect<T>("inv", -4, (T)-.25);
}
int main(int argc, char** argv) {
  parse_opts(argc, argv);
  land<double>(); land<float>();
  rep_cell("landmark arguments", lands);
  tiny<double>(); tiny<float>();
  rep_count("results at landmark arguments", n_land);
  rep_count("results for tiny arguments", n_tiny);
  rep_done();
  return 0;
}
