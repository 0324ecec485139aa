// Monitor of exact symmetries and of the ranges of results.
#include "opts.h"

enum Sym { NONE, ODD, EVEN };
static Sym sym_of(int id) {
  switch (id) {
    case SIN: case TAN: case ASIN: case ATAN: case TANH: case INV: case AINV: return ODD;
    case COS: return EVEN;
    default: return NONE;
  }
}
template <class T> static bool in_range(int id, T v) {
  const T pi = (T)PI_L, pio2 = (T)(PI_L / 2);
  switch (id) {
    case SIN: case COS: case TANH: return v >= -1 && v <= 1;
    case ASIN: case ATAN: return v >= -pio2 && v <= pio2;
    case ACOS: return v >= 0 && v <= pi;
    case EXP: case ISQRT: case AISQRT: return v >= 0;
    default: return true;
  }
}
template <class T> static bool dom(int id, T x) {
  typedef std::numeric_limits<T> L;
  T a = x < 0 ? -x : x;
  switch (id) {
    case SIN: case COS: case TAN: return trig_dom(x);
    case ASIN: case ACOS: return a <= 1;
    case ATAN: case TANH: case EXP: return x == x;
    case INV: case AINV: return a >= L::min() && a <= L::max();
    case ISQRT: case AISQRT: return x >= L::min() && x <= L::max();
    default: return false;
  }
}
template <class T> static inline void one(const Unary& u, T (*f)(T), int id, Sym s, T x, uint64_t& n, Cells& cells) {
  if (!dom<T>(id, x)) return;
  T v = f(x);
  ++n;
  cells.hit(cell(x));
  if (!in_range<T>(id, v))
    viol(std::string("range ") + u.name + Sel<T>::suf(), FMT("%s%s(%.17g) = %.17g leaves the range of the function", u.name, Sel<T>::suf(), (double)x, (double)v), hexb(x));
  if (s == NONE) return;
  T w = f(-x);
  ++n;
  if (!(s == ODD ? w == -v : w == v))
    viol(std::string("symmetry ") + u.name + Sel<T>::suf(), FMT("%s%s(%.17g) = %.17g but at %.17g it is %.17g", u.name, Sel<T>::suf(), (double)x, (double)v, -(double)x, (double)w), hexb(x));
}
template <class T> static void sampled(const Unary& u, int id) {
  Source<T> src; src.init(id, o_lits);
  std::vector<Cells> cells(o_threads);
  std::atomic<uint64_t> n(0);
  const uint64_t CH = 20000, ne = src.n_enum(), ec = (ne + CH - 1) / CH;
  par(o_chunks + ec, [&](uint64_t c, unsigned t) {
    uint64_t k = 0;
    if (c < ec) { for (uint64_t i = c * CH; i < (c + 1) * CH && i < ne; ++i) one<T>(u, Sel<T>::s(u), id, sym_of(id), src.enumerated(i), k, cells[t]); }
    else {
      Rng g(o_seed, 500 + id * 2 + (sizeof(T) == 8), c - ec);
      for (uint64_t i = 0; i < CH; ++i) one<T>(u, Sel<T>::s(u), id, sym_of(id), src.one(g), k, cells[t]);
    }
    n += k;
  });
  T inf = std::numeric_limits<T>::infinity();
  uint64_t k = 0;
  one<T>(u, Sel<T>::s(u), id, sym_of(id), inf, k, cells[0]);
  one<T>(u, Sel<T>::s(u), id, sym_of(id), -inf, k, cells[0]);
  n += k;
  for (unsigned i = 1; i < o_threads; ++i) cells[0].merge(cells[i]);
  rep_count(FMT("sampled %s%s", u.name, Sel<T>::suf()), n);
  rep_cell(FMT("sampled %s%s", u.name, Sel<T>::suf()), cells[0].count());
}
static void floats(const Unary& u, int id) {
  Sym s = sym_of(id);
  std::vector<Cells> cells(o_threads);
  std::atomic<uint64_t> n(0);
  const uint64_t top = s == NONE ? 1ull << 32 : 1ull << 31, BLK = 1 << 20;  // x and -x are taken together
  par(top / BLK, [&](uint64_t b, unsigned t) {
    uint64_t k = 0;
    for (uint64_t v = b * BLK + o_seed % o_stride; v < (b + 1) * BLK; v += o_stride) one<float>(u, u.sf, id, s, flt((uint32_t)v), k, cells[t]);
    n += k;
  });
  for (unsigned i = 1; i < o_threads; ++i) cells[0].merge(cells[i]);
  rep_count(FMT("float patterns %sf", u.name), n);
  rep_cell(FMT("float patterns %sf", u.name), cells[0].count());
}
template <class T> static void two(const Binary& b) {
  Source<T> src; src.init(NIDS, o_lits);
  std::vector<Cells> cells(o_threads);
  std::atomic<uint64_t> n(0);
  const T pi = (T)PI_L;
  par(o_chunks, [&](uint64_t c, unsigned t) {
    Rng g(o_seed, 600 + (sizeof(T) == 8), c);
    uint64_t k = 0;
    for (int i = 0; i < 20000; ++i) {
      T y, x;
      switch (g.below(6)) {
        case 0: y = (T)g.uni(-5000, 5000); x = (T)g.uni(-5000, 5000); break;
        case 1: y = src.randexp(g); x = src.randexp(g); break;
        case 2: y = special_value<T>(g); x = special_value<T>(g); break;
        case 3: y = special_value<T>(g); x = src.one(g); break;
        case 4: y = src.critical(g); x = src.critical(g); break;
        default: y = src.one(g); x = y * (T)g.uni(-3, 3);
      }
      if (y - y != 0 || x - x != 0) continue;
      T v = Sel<T>::s(b)(y, x);
      ++k;
      int ey = (int)(bits(y) >> Fmt<T>::MB) & Fmt<T>::EMAX, ex = (int)(bits(x) >> Fmt<T>::MB) & Fmt<T>::EMAX;
      int d = ey - ex; if (d > 127) d = 127; if (d < -128) d = -128;
      cells[t].hit(((y < 0) | (x < 0) << 1 | (uint32_t)(d + 128) << 2 | (uint32_t)(ex * 128 / Fmt<T>::EMAX) << 10) & 0xfffff);
      if (!(v >= -pi && v <= pi)) viol(std::string("range ") + b.name + Sel<T>::suf(), FMT("%s%s(%.17g, %.17g) = %.17g is not in [-pi, pi]", b.name, Sel<T>::suf(), (double)y, (double)x, (double)v), hexb(y) + "," + hexb(x));
      if (y != 0) {
        T w = Sel<T>::s(b)(-y, x);
        ++k;
        if (w != -v) viol(std::string("symmetry ") + b.name + Sel<T>::suf(), FMT("%s%s(%.17g, %.17g) = %.17g but with -y it is %.17g", b.name, Sel<T>::suf(), (double)y, (double)x, (double)v, (double)w), hexb(y) + "," + hexb(x));
      }
    }
    n += k;
  });
  for (unsigned i = 1; i < o_threads; ++i) cells[0].merge(cells[i]);
  rep_count(FMT("pairs %s%s", b.name, Sel<T>::suf()), n);
  rep_cell(FMT("pairs %s%s", b.name, Sel<T>::suf()), cells[0].count());
}
int main(int argc, char** argv) {
  parse_opts(argc, argv);
  for (int i = 0; i < vdt_n_unary; ++i) {
    const Unary& u = vdt_unary[i];
    int id = id_of(u.name);
    if (!is_fast(u.name) || id == LOG) continue;
    sampled<double>(u, id);
    if (o_stride != 1) sampled<float>(u, id);
    floats(u, id);
  }
  for (int i = 0; i < vdt_n_binary; ++i)
    if (is_fast(vdt_binary[i].name)) { two<double>(vdt_binary[i]); two<float>(vdt_binary[i]); }
  rep_sample(FMT("fast_sin(1e8) = %.17g, fast_sin(-1e8) = %.17g", vdt_unary[2].sd(1e8), vdt_unary[2].sd(-1e8)));
  rep_done();
  return 0;
}
