// Monitor of NaN, infinite and out-of-domain arguments: scalar results and every lane of
// array results.
#include "opts.h"

template <class T> struct SCls {  // what the statement says for a unary function
  static Kind k(int id, T x) {
    if (x != x) return ISNAN;
    if ((id == ASIN || id == ACOS) && (x > 1 || x < -1)) return ISNAN;
    if (id == LOG && x < 0) return ISNAN;
    if (x - x != 0) {
      if (id == EXP) return x > 0 ? PINF : ZERO;
      if (id == LOG) return PINF;
      if (id == TANH || id == ATAN) return NUM;
    }
    return SKIP;
  }
};
template <class T> static bool good(int id, T x, T v, Kind k) {
  switch (k) {
    case ISNAN: return v != v;
    case PINF: return v == std::numeric_limits<T>::infinity();
    case ZERO: return v == 0;
    case NUM: {
      if (id == TANH) return v == (x > 0 ? 1 : -1);
      typename W<T>::type r = (typename W<T>::type)(PI_L / 2) * (x > 0 ? 1 : -1);
      return wabs((typename W<T>::type)v - r) <= 3 * ulp_of(r, T());
    }
    default: return true;
  }
}
static const char* kname(Kind k) { return k == ISNAN ? "NaN" : k == PINF ? "+inf" : k == ZERO ? "0" : k == NUM ? "the limit at infinity" : "?"; }
static uint32_t clsbit(Kind k) { return k; }

struct Tot { std::atomic<uint64_t> n; std::mutex m; Cells cells; Tot() : n(0) {} };

// Judges a block of arguments with the scalar and with the array function.
template <class T> static void block(const Unary& u, int id, const std::vector<T>& x, Tot& tot, Cells& cells) {
  std::vector<T> out(x.size(), (T)77);
  Sel<T>::v(u)((uint32_t)x.size(), x.data(), out.data());
  uint64_t n = 0;
  for (size_t i = 0; i < x.size(); ++i) {
    Kind k = SCls<T>::k(id, x[i]);
    if (k == SKIP) continue;
    T v = Sel<T>::s(u)(x[i]);
    n += 2;
    cells.hit(cell(x[i]));
    (void)clsbit;
    if (!good<T>(id, x[i], v, k))
      viol(std::string(u.name) + Sel<T>::suf(), FMT("%s%s(%.17g) returned %.17g, expected %s", u.name, Sel<T>::suf(), (double)x[i], (double)v, kname(k)), hexb(x[i]));
    if (!good<T>(id, x[i], out[i], k))
      viol(std::string(u.name) + Sel<T>::suf() + "v", FMT("%s%sv: element %zu of %zu for %.17g is %.17g, expected %s", u.name, Sel<T>::suf(), i, x.size(), (double)x[i], (double)out[i], kname(k)), hexb(x[i]));
  }
  tot.n += n;
}

// Sampled: special arguments at random lanes between ordinary ones.
template <class T> static void mixed(const Unary& u, int id) {
  Tot tot;
  std::vector<Cells> cells(o_threads);
  Source<T> src; src.init(id, o_lits);
  typedef typename Fmt<T>::U U;
  const int MB = Fmt<T>::MB;
  par(o_chunks, [&](uint64_t c, unsigned t) {
    Rng g(o_seed, 300 + id * 2 + (sizeof(T) == 8), c);
    std::vector<T> x(g.below(4) ? 1 + g.below(40) : 1 + g.below(2000));
    for (int rep = 0; rep < 8; ++rep) {
      for (size_t i = 0; i < x.size(); ++i) {
        U s = g.u64() & 1 ? (U)1 << (sizeof(T) * 8 - 1) : 0;
        switch (g.below(6)) {
          case 0: x[i] = src.one(g); break;
          case 1: {  // NaN with some payload
            U p = (U)g.u64() & (((U)1 << MB) - 1);
            if (g.below(3) == 0) p = (U)1 << g.below(MB);
            if (p == 0) p = 1;
            x[i] = frombits(s | ((U)Fmt<T>::EMAX << MB) | p, T());
            break;
          }
          case 2: x[i] = s ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity(); break;
          case 3: x[i] = special_value<T>(g); break;
          case 4: x[i] = frombits(s | ((U)g.u64() & ~((U)1 << (sizeof(T) * 8 - 1))), T()); break;
          default: {  // just outside +-1, just below 0, large
            T v = g.below(2) ? step((T)1, 1 + (int64_t)(g.u64() >> (65 - 1 - g.below(MB)))) : -step((T)0, 1 + (int64_t)g.below(100));
            x[i] = s ? -v : v;
          }
        }
      }
      block<T>(u, id, x, tot, cells[t]);
    }
  });
  for (unsigned i = 1; i < o_threads; ++i) cells[0].merge(cells[i]);
  rep_count(FMT("mixed %s%s", u.name, Sel<T>::suf()), tot.n);
  rep_cell(FMT("mixed %s%s", u.name, Sel<T>::suf()), cells[0].count());
}

// All float patterns of the classes above.
static void all_floats(const Unary& u, int id) {
  Tot tot;
  std::vector<Cells> cells(o_threads);
  const uint64_t BLK = 1 << 14, NB = (1ull << 32) / BLK;
  par(NB, [&](uint64_t b, unsigned t) {
    float lo = flt((uint32_t)(b * BLK)), hi = flt((uint32_t)(b * BLK + BLK - 1));
    if (SCls<float>::k(id, lo) == SKIP && SCls<float>::k(id, hi) == SKIP) return;
    bool isnan = lo != lo || hi != hi;
    uint64_t st = isnan ? 1 : o_stride;
    std::vector<float> x;
    for (uint64_t k = isnan ? 0 : (o_seed + b) % st; k < BLK; k += st) x.push_back(flt((uint32_t)(b * BLK + k)));
    block<float>(u, id, x, tot, cells[t]);
  });
  for (unsigned i = 1; i < o_threads; ++i) cells[0].merge(cells[i]);
  rep_count(FMT("float patterns %s", u.name), tot.n);
  rep_cell(FMT("float patterns %s", u.name), cells[0].count());
}

template <class T> static void two(const Binary& b) {
  std::atomic<uint64_t> n(0);
  std::vector<Cells> cells(o_threads);
  Source<T> src; src.init(NIDS, o_lits);
  typedef typename Fmt<T>::U U;
  const int MB = Fmt<T>::MB;
  auto nan = [&](Rng& g) {
    U p = (U)g.u64() & (((U)1 << MB) - 1);
    if (g.below(3) == 0) p = (U)1 << g.below(MB);
    if (p == 0) p = 1;
    U s = g.u64() & 1 ? (U)1 << (sizeof(T) * 8 - 1) : 0;
    return frombits(s | ((U)Fmt<T>::EMAX << MB) | p, T());
  };
  par(o_chunks * 4, [&](uint64_t c, unsigned t) {
    Rng g(o_seed, 400 + (sizeof(T) == 8), c);
    size_t m = g.below(4) ? 1 + g.below(40) : 1 + g.below(2000);
    std::vector<T> y(m), x(m), o(m, (T)77);
    for (size_t i = 0; i < m; ++i) {
      T a = g.below(2) ? special_value<T>(g) : src.one(g), d = g.below(2) ? special_value<T>(g) : src.one(g);
      switch (g.below(5)) {
        case 0: y[i] = nan(g); x[i] = d; break;
        case 1: y[i] = a; x[i] = nan(g); break;
        case 2: y[i] = nan(g); x[i] = nan(g); break;
        case 3: y[i] = g.u64() & 1 ? (T)0 : -(T)0; x[i] = nan(g); break;
        default: y[i] = a; x[i] = d;
      }
    }
    Sel<T>::v(b)((uint32_t)m, y.data(), x.data(), o.data());
    for (size_t i = 0; i < m; ++i) {
      if (y[i] == y[i] && x[i] == x[i]) continue;
      T v = Sel<T>::s(b)(y[i], x[i]);
      n += 2;
      cells[t].hit(((uint32_t)(bits(y[i]) >> (sizeof(T) * 8 - 10)) << 10 | (uint32_t)(bits(x[i]) >> (sizeof(T) * 8 - 10))) & 0xfffff);
      if (v == v) viol(std::string(b.name) + Sel<T>::suf(), FMT("%s%s(%.17g, %.17g) returned %.17g, expected NaN", b.name, Sel<T>::suf(), (double)y[i], (double)x[i], (double)v), hexb(y[i]) + "," + hexb(x[i]));
      if (o[i] == o[i]) viol(std::string(b.name) + Sel<T>::suf() + "v", FMT("%s%sv: element %zu for (%.17g, %.17g) is %.17g, expected NaN", b.name, Sel<T>::suf(), i, (double)y[i], (double)x[i], (double)o[i]), hexb(y[i]) + "," + hexb(x[i]));
    }
  });
  for (unsigned i = 1; i < o_threads; ++i) cells[0].merge(cells[i]);
  rep_count(FMT("pairs %s%s", b.name, Sel<T>::suf()), n);
  rep_cell(FMT("pairs %s%s", b.name, Sel<T>::suf()), cells[0].count());
}

int main(int argc, char** argv) {
  parse_opts(argc, argv);
  for (int i = 0; i < vdt_n_unary; ++i) {
    const Unary& u = vdt_unary[i];
    if (!is_fast(u.name)) continue;
    int id = id_of(u.name);
    if (!o_replay.empty()) {
      uint64_t b = strtoull(o_replay.c_str() + 2, 0, 16);
      if (o_replay[0] == 'd') printf("%s(%.17g) = %.17g\n", u.name, dbl(b), u.sd(dbl(b)));
      else printf("%sf(%.9g) = %.9g\n", u.name, flt((uint32_t)b), u.sf(flt((uint32_t)b)));
      continue;
    }
    mixed<double>(u, id);
    mixed<float>(u, id);
    all_floats(u, id);
  }
  if (!o_replay.empty()) return 0;
  for (int i = 0; i < vdt_n_binary; ++i)
    if (is_fast(vdt_binary[i].name)) { two<double>(vdt_binary[i]); two<float>(vdt_binary[i]); }
  rep_sample(FMT("fast_log(-1) = %g, fast_asin(1.0000000000000002) = %g", vdt_unary[1].sd(-1), vdt_unary[5].sd(1.0000000000000002)));
  rep_done();
  return 0;
}
