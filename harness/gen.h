// Input generation. Every random choice derives from (seed, stream, chunk), so that the
// workload does not depend on the number of threads.
#ifndef VMON_GEN_H
#define VMON_GEN_H
#include "oracle.h"
#include <algorithm>
#include <fstream>
#include <string>
#include <vector>

struct Rng {  // splitmix64-seeded xoshiro256**
  uint64_t s[4];
  static uint64_t mix(uint64_t& z) {
    uint64_t x = (z += 0x9e3779b97f4a7c15ULL);
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
  }
  Rng(uint64_t seed, uint64_t stream, uint64_t chunk) {
    uint64_t z = seed * 0x2545F4914F6CDD1DULL + stream;
    z = mix(z) + chunk;
    for (int i = 0; i < 4; ++i) s[i] = mix(z);
  }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t u64() {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  uint64_t below(uint64_t n) { return (uint64_t)(((unsigned __int128)u64() * n) >> 64); }
  double unit() { return (double)(u64() >> 11) * 0x1p-53; }
  double uni(double a, double b) { return a + (b - a) * unit(); }
};

template <class T> struct Fmt;
template <> struct Fmt<double> { enum { MB = 52, EMAX = 2047 }; typedef uint64_t U; };
template <> struct Fmt<float> { enum { MB = 23, EMAX = 255 }; typedef uint32_t U; };

// k representable numbers away from x (towards larger magnitude for k>0).
template <class T> static inline T step(T x, int64_t k) {
  typedef typename Fmt<T>::U U;
  const U sign = (U)1 << (sizeof(T) * 8 - 1);
  U b = bits(x), m = b & ~sign;
  int64_t n = (int64_t)m + k;
  int64_t top = (int64_t)(((U)Fmt<T>::EMAX) << Fmt<T>::MB) - 1;
  if (n < 0) n = 0;
  if (n > top) n = top;
  return frombits((b & sign) | (U)n, T());
}

struct Interval { double lo, hi; };

// Literals found in the headers under test: used as a dictionary of interesting inputs.
// Lines starting with i hold the whole numbers among them exactly.
static std::vector<uint64_t> lit_ints;
static std::vector<double> read_literals(const std::string& path) {
  std::vector<double> v;
  std::ifstream f(path.c_str());
  double d;
  std::string s;
  while (f >> s) {
    if (s[0] == 'i') { lit_ints.push_back(strtoull(s.c_str() + 1, 0, 10)); continue; }
    d = strtod(s.c_str(), 0);
    v.push_back(d);
  }
  return v;
}

static const long double PI_L = 3.14159265358979323846264338327950288L;
static const long double LN2_L = 0.693147180559945309417232121458176568L;

template <class T> struct Source {
  int id;                        // Id, or NIDS for any value
  std::vector<Interval> iv;      // intervals of interest
  std::vector<T> crit;           // points around which neighbours are taken
  double hi;                     // magnitude limit of the domain
  bool pos;                      // only positive arguments are in the domain
  int e_lo, e_hi;                // biased exponents of the domain

  void add(long double c) {
    T t = (T)c;
    if (t - t != 0) return;
    crit.push_back(t);
  }
  void init(int id_, const std::vector<double>& lits) {
    id = id_;
    const bool d = sizeof(T) == 8;
    hi = (double)std::numeric_limits<T>::max();
    pos = false;
    e_lo = 0; e_hi = Fmt<T>::EMAX - 1;
    switch (id) {
      case EXP:
        hi = d ? 800 : 100;
        iv.push_back(Interval{d ? -708. : -88., d ? 708. : 88.7228});
        iv.push_back(Interval{-1, 1}); iv.push_back(Interval{-30, 30});
        iv.push_back(Interval{d ? 700. : 80., d ? 720. : 90.}); iv.push_back(Interval{d ? -720. : -90., d ? -700. : -80.});
        for (int k = -2100; k <= 2100; ++k) add(k * LN2_L / 2);
        break;
      case LOG:
        pos = true;
        iv.push_back(Interval{0, 5000}); iv.push_back(Interval{0.5, 2}); iv.push_back(Interval{0.9, 1.1});
        iv.push_back(Interval{0, 1}); iv.push_back(Interval{0, 1e6});
        for (int k = -1080; k <= 1024; ++k) { add(ldexpl(1, k)); add(ldexpl(sqrtl(2), k)); add(ldexpl(sqrtl(.5L), k)); }
        for (int k = 1; k < 60; ++k) { add(1 + ldexpl(1, -k)); add(1 - ldexpl(1, -k)); }
        break;
      case SIN: case COS: case TAN:
        hi = d ? 1e8 : 8192;
        iv.push_back(Interval{-5000, 5000}); iv.push_back(Interval{-7, 7}); iv.push_back(Interval{-hi, hi});
        iv.push_back(Interval{-0.8, 0.8}); iv.push_back(Interval{-100, 100});
        for (int k = 0; k <= 10440; ++k) { add(k * PI_L / 4); add(-k * PI_L / 4); }
        for (int k = 0; k <= 40; ++k) { add(k * PI_L / 8); add(k * PI_L / 6); add(k * PI_L / 12); }
        if (d) for (int k = 1; k < 27; ++k) for (int j = -2; j <= 2; ++j) add((ldexpl(1, k) + j) * PI_L / 4);
        break;
      case ASIN: case ACOS:
        hi = 1.2;
        iv.push_back(Interval{-1, 1}); iv.push_back(Interval{-0.1, 0.1}); iv.push_back(Interval{0.5, 0.7});
        iv.push_back(Interval{-0.7, -0.5}); iv.push_back(Interval{0.9, 1}); iv.push_back(Interval{-1, -0.9});
        for (int k = 1; k < 60; ++k) { add(1 - ldexpl(1, -k)); add(-1 + ldexpl(1, -k)); }
        break;
      case ATAN:
        iv.push_back(Interval{-5000, 5000}); iv.push_back(Interval{-5, 5}); iv.push_back(Interval{-1, 1});
        iv.push_back(Interval{-1e6, 1e6});
        for (int k = 1; k < 48; ++k) add(tanl(k * PI_L / 96));
        break;
      case TANH:
        iv.push_back(Interval{-25, 25}); iv.push_back(Interval{-2, 2}); iv.push_back(Interval{-0.7, 0.7});
        iv.push_back(Interval{8, 11}); iv.push_back(Interval{18, 22}); iv.push_back(Interval{-5000, 5000});
        break;
      case ISQRT: case AISQRT: case RISQRT:
        pos = true;
        iv.push_back(Interval{0, 5000}); iv.push_back(Interval{0, 4}); iv.push_back(Interval{0, 1e6});
        for (int k = -1080; k <= 1024; ++k) { add(ldexpl(1, k)); add(ldexpl(1.5L, k)); }
        break;
      default:
        iv.push_back(Interval{-5000, 5000}); iv.push_back(Interval{-4, 4}); iv.push_back(Interval{-1e6, 1e6});
        for (int k = -1080; k <= 1024; ++k) { add(ldexpl(1, k)); add(ldexpl(-1.5L, k)); }
        break;
    }
    e_hi = (int)(bits((T)hi) >> Fmt<T>::MB);
    // General points: powers of two and ten, small integers, formats' limits.
    for (int k = -1074; k <= 1023; k += 1) { add(ldexpl(1, k)); add(-ldexpl(1, k)); }
    for (int k = -320; k <= 308; ++k) { add(powl(10, k)); add(-powl(10, k)); }
    const T lim[] = {std::numeric_limits<T>::min(), std::numeric_limits<T>::max(),
                     std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::epsilon(), 0};
    for (size_t i = 0; i < 5; ++i) { add(lim[i]); add(-lim[i]); }
    // Literals of the headers, also transformed as argument reductions would.
    for (size_t i = 0; i < lits.size(); ++i) {
      long double c = lits[i];
      if (!(c - c == 0)) continue;
      long double v[] = {c, (long double)(float)c, 1 / c, c * c, c > 0 ? sqrtl(c) : 0, c * PI_L / 4, c * PI_L, c * LN2_L,
                         c / 2, c * 2, 1 - c, 1 - c * c, c > -1e4L && c < 1e4L ? expl(c) : 0, c > 0 ? logl(c) : 0};
      for (size_t j = 0; j < sizeof(v) / sizeof(v[0]); ++j)
        if (v[j] - v[j] == 0) { add(v[j]); add(-v[j]); }
    }
    std::sort(crit.begin(), crit.end());
    crit.erase(std::unique(crit.begin(), crit.end()), crit.end());
    std::vector<T> in;
    for (size_t i = 0; i < crit.size(); ++i)
      if (fabs((double)crit[i]) <= hi * 1.5 || beyond()) in.push_back(crit[i]);
    crit.swap(in);
  }
  // Results are specified for arguments beyond hi as well: infinity and zero, or NaN.
  bool beyond() const { return id >= NIDS || id == EXP || id == ASIN || id == ACOS; }
  T randexp(Rng& g) const {
    typedef typename Fmt<T>::U U;
    const int top = beyond() && g.below(4) == 0 ? Fmt<T>::EMAX - 1 : e_hi;
    U e = (U)(e_lo + g.below(top - e_lo + 1));
    U m = (U)(g.u64()) & (((U)1 << Fmt<T>::MB) - 1);
    unsigned shape = g.below(10);
    const int MB = Fmt<T>::MB;
    if (shape == 1) m &= ~(((U)1 << (1 + g.below(MB - 1))) - 1);  // trailing zeros
    if (shape == 2) m |= ((U)1 << (1 + g.below(MB - 1))) - 1;     // trailing ones
    if (shape == 3) m = ((U)1 << g.below(MB)) | ((U)1 << g.below(MB));
    if (shape == 4 && MB > 23) m &= ~(((U)1 << (MB - 23)) - 1);   // representable as float
    if (shape >= 8 && !lit_ints.empty()) {  // a whole number of the headers in the low bits, or anywhere
      const U v = (U)lit_ints[g.below(lit_ints.size())] & (((U)1 << MB) - 1);
      int w = 1;
      while (w < MB && v >> w) ++w;
      if (shape == 8) w += (int)g.below(MB - w + 1);
      const int at = shape == 8 ? 0 : (int)g.below(MB - w + 1);
      m = (m & ~((((U)1 << w) - 1) << at)) | v << at;
    }
    U s = !pos && (g.u64() & 1) ? (U)1 << (sizeof(T) * 8 - 1) : 0;
    return frombits(s | (e << MB) | m, T());
  }
  T one(Rng& g) const {
    unsigned c = g.below(20);
    if (c < 9) {
      const Interval& v = iv[g.below(iv.size())];
      T t = (T)g.uni(v.lo, v.hi);
      if (c == 0) t = (T)(float)t;
      return t;
    }
    if (c < 14) return randexp(g);
    if (c < 18) return critical(g);
    const Interval& v = iv[g.below(iv.size())];  // decimal and binary grids
    static const double q[] = {1, 2, 4, 8, 10, 16, 100, 1000, 1024, 3, 7, 1e4, 1e5};
    double u = q[g.below(13)];
    return (T)(std::floor(g.uni(v.lo, v.hi) * u + 0.5) / u);
  }
  T critical(Rng& g) const {
    T t;
    if ((id == SIN || id == COS || id == TAN) && g.below(3) == 0)
      t = (T)((long double)(int64_t)g.below((uint64_t)(hi * 4 / 3.1415926)) * PI_L / 4 * (g.u64() & 1 ? 1 : -1));
    else
      t = crit[g.below(crit.size())];
    int64_t k = (int64_t)g.below(17) - 8;
    if (g.below(2)) {
      int64_t w = (int64_t)1 << g.below(Fmt<T>::MB - 4);
      k = (int64_t)g.below(2 * w + 1) - w;
    }
    return step(t, k);
  }
  // Every critical point with all of its nearest neighbours: enumerated, not sampled.
  size_t n_enum() const { return crit.size() * 33; }
  T enumerated(size_t i) const { return step(crit[i / 33], (int64_t)(i % 33) - 16); }
};

// Cells of the input space, to count distinct behaviours that were exercised.
template <class T> static inline uint32_t cell(T x) {
  return (uint32_t)(bits(x) >> (sizeof(T) == 8 ? 64 - 20 : 32 - 20));  // sign, exponent, 8 or 11 mantissa bits
}
struct Cells {
  std::vector<uint64_t> b;
  Cells() : b((1u << 20) / 64, 0) {}
  void hit(uint32_t c) { b[c >> 6] |= (uint64_t)1 << (c & 63); }
  uint64_t count() const { uint64_t n = 0; for (size_t i = 0; i < b.size(); ++i) n += __builtin_popcountll(b[i]); return n; }
  void merge(const Cells& o) { for (size_t i = 0; i < b.size(); ++i) b[i] |= o.b[i]; }
};
#endif
