// Monitor of the floating point exception flags raised by fast functions.
#include "opts.h"
#include <cfenv>

template <class T> static bool dom(int id, T x) {
  typedef std::numeric_limits<T> L;
  if (x - x != 0) return false;
  T a = x < 0 ? -x : x;
  switch (id) {
    case EXP: case TANH: return a <= (T)1e9;
    case LOG: case ISQRT: case AISQRT: return x >= L::min();
    case INV: case AINV: return a >= L::min();
    case SIN: case COS: case TAN: return trig_dom(x);
    case ASIN: case ACOS: return a <= 1;
    case ATAN: return true;
    default: return false;
  }
}
template <class T> static bool ordinary(int id, T x) {
  T a = x < 0 ? -x : x;
  if (!dom<T>(id, x) || a < (T)1e-3 || a > (T)1e3) return false;
  return id != EXP || a <= 80;
}
template <class T> static bool ord2(T y, T x) {
  T a = y < 0 ? -y : y, b = x < 0 ? -x : x;
  return a >= (T)1e-3 && a <= (T)1e3 && b >= (T)1e-3 && b <= (T)1e3;
}
static std::string names(int f) {
  std::string s;
  if (f & FE_INVALID) s += " invalid";
  if (f & FE_DIVBYZERO) s += " divide-by-zero";
  if (f & FE_OVERFLOW) s += " overflow";
  if (f & FE_UNDERFLOW) s += " underflow";
  return s;
}
static const int HARD = FE_INVALID | FE_DIVBYZERO, SOFT = FE_OVERFLOW | FE_UNDERFLOW;

struct Acc { uint64_t n; Cells c; Acc() : n(0) {} };
// Judges a block of arguments that all are (or all are not) ordinary. Flags are sticky, so they are
// examined once per block, and argument by argument when a block raised something.
template <class T> static void block(const Unary& u, const std::vector<T>& x, std::vector<T>& out, int bad, Acc& a) {
  if (x.empty()) return;
  T (*f)(T) = Sel<T>::s(u);
  out.resize(x.size());
  feclearexcept(FE_ALL_EXCEPT);
  for (size_t i = 0; i < x.size(); ++i) out[i] = f(x[i]);
  int got = fetestexcept(bad);
  feclearexcept(FE_ALL_EXCEPT);
  Sel<T>::v(u)((uint32_t)x.size(), x.data(), out.data());
  int gota = fetestexcept(bad);
  feclearexcept(FE_ALL_EXCEPT);
  a.n += 2 * x.size();
  for (size_t i = 0; i < x.size(); ++i) a.c.hit(cell(x[i]));
  if (got)
    for (size_t i = 0; i < x.size(); ++i) {
      feclearexcept(FE_ALL_EXCEPT);
      out[i] = f(x[i]);
      int e = fetestexcept(bad);
      feclearexcept(FE_ALL_EXCEPT);
      if (e) viol(std::string(u.name) + Sel<T>::suf(), FMT("%s%s(%.17g) = %.17g raised%s", u.name, Sel<T>::suf(), (double)x[i], (double)out[i], names(e).c_str()), hexb(x[i]));
    }
  if (gota) {  // find a lane by shrinking the array
    size_t lo = 0, hi = x.size();
    while (hi - lo > 1) {
      size_t mid = (lo + hi) / 2;
      feclearexcept(FE_ALL_EXCEPT);
      Sel<T>::v(u)((uint32_t)(mid - lo), x.data() + lo, out.data());
      int e = fetestexcept(bad);
      feclearexcept(FE_ALL_EXCEPT);
      if (e) hi = mid; else lo = mid;
    }
    viol(std::string(u.name) + Sel<T>::suf() + "v", FMT("%s%sv raised%s in an array of %zu, near %.17g", u.name, Sel<T>::suf(), names(gota).c_str(), x.size(), (double)x[lo]), hexb(x[lo]));
  }
}
template <class T> static void split(const Unary& u, int id, const std::vector<T>& x, std::vector<T>& a, std::vector<T>& b, std::vector<T>& out, Acc& acc) {
  a.clear(); b.clear();
  for (size_t i = 0; i < x.size(); ++i) if (dom<T>(id, x[i])) (ordinary<T>(id, x[i]) ? a : b).push_back(x[i]);
  block<T>(u, a, out, HARD | SOFT, acc);
  block<T>(u, b, out, HARD, acc);
}
template <class T> static void unary(const Unary& u, int id) {
  Source<T> src; src.init(id, o_lits);
  std::vector<Acc> acc(o_threads);
  const uint64_t CH = 500, ne = src.n_enum(), ec = (ne + CH - 1) / CH;
  par(o_chunks + ec, [&](uint64_t c, unsigned t) {
    std::vector<T> x, a, b, out;
    Rng g(o_seed, 700 + id * 2 + (sizeof(T) == 8), c);
    if (c < ec) {
      for (uint64_t i = c * CH; i < (c + 1) * CH && i < ne; ++i) x.push_back(src.enumerated(i));
      split<T>(u, id, x, a, b, out, acc[t]);
      return;
    }
    for (int r = 0; r < 40; ++r) {
      x.clear();
      for (uint64_t i = 0; i < CH; ++i) x.push_back(g.below(20) ? src.one(g) : special_value<T>(g));
      if (g.below(3) == 0) for (uint64_t i = 0; i < CH; ++i) x[i] = (T)(exp(g.uni(log(1e-3), log(1e3))) * (g.u64() & 1 ? 1 : -1));
      split<T>(u, id, x, a, b, out, acc[t]);
    }
  });
  if (sizeof(T) == 4) {
    const uint64_t BLK = 1 << 12;
    par((1ull << 32) / BLK / o_stride, [&](uint64_t k, unsigned t) {
      std::vector<T> x, a, b, out;
      uint64_t blk = k * o_stride + o_seed % o_stride;
      for (uint64_t i = 0; i < BLK; ++i) x.push_back((T)flt((uint32_t)(blk * BLK + i)));
      split<T>(u, id, x, a, b, out, acc[t]);
    });
  }
  for (unsigned i = 1; i < o_threads; ++i) { acc[0].n += acc[i].n; acc[0].c.merge(acc[i].c); }
  rep_count(FMT("evaluations %s%s", u.name, Sel<T>::suf()), acc[0].n);
  rep_cell(FMT("cells %s%s", u.name, Sel<T>::suf()), acc[0].c.count());
}
template <class T> static void two(const Binary& b) {
  Source<T> src; src.init(NIDS, o_lits);
  std::vector<Acc> acc(o_threads);
  par(o_chunks * 8, [&](uint64_t c, unsigned t) {
    Rng g(o_seed, 800 + (sizeof(T) == 8), c);
    for (int r = 0; r < 10; ++r) {
      const size_t CH = 500;
      std::vector<T> y, x, o(CH);
      bool ord = g.u64() & 1;
      while (y.size() < CH) {
        T p, q;
        if (ord) { p = (T)(exp(g.uni(log(1e-3), log(1e3))) * (g.u64() & 1 ? 1 : -1)); q = (T)(exp(g.uni(log(1e-3), log(1e3))) * (g.u64() & 1 ? 1 : -1)); if (g.below(8) == 0) q = p; }
        else {
          p = g.below(3) ? src.one(g) : special_value<T>(g); q = g.below(3) ? src.one(g) : special_value<T>(g);
          if (g.below(8) == 0) p = g.u64() & 1 ? (T)0 : -(T)0;
          if (g.below(8) == 0) q = g.u64() & 1 ? (T)0 : -(T)0;
          if (g.below(8) == 0) q = p * (T)g.uni(-2, 2);
        }
        if (p - p != 0 || q - q != 0 || (ord && !ord2<T>(p, q))) continue;
        y.push_back(p); x.push_back(q);
        acc[t].c.hit((uint32_t)((bits(p) >> (sizeof(T) * 8 - 10)) << 10 | bits(q) >> (sizeof(T) * 8 - 10)) & 0xfffff);
      }
      int bad = ord ? HARD | SOFT : HARD;
      feclearexcept(FE_ALL_EXCEPT);
      Sel<T>::v(b)((uint32_t)CH, y.data(), x.data(), o.data());
      int e = fetestexcept(bad);
      feclearexcept(FE_ALL_EXCEPT);
      for (size_t i = 0; i < CH; ++i) o[i] = Sel<T>::s(b)(y[i], x[i]);
      int s = fetestexcept(bad);
      feclearexcept(FE_ALL_EXCEPT);
      acc[t].n += 2 * CH;
      if (!e && !s) continue;
      bool told = false;
      for (size_t i = 0; i < CH; ++i) {
        feclearexcept(FE_ALL_EXCEPT);
        T v = Sel<T>::s(b)(y[i], x[i]);
        int f = fetestexcept(bad);
        feclearexcept(FE_ALL_EXCEPT);
        if (f) { told = true; viol(std::string(b.name) + Sel<T>::suf(), FMT("%s%s(%.17g, %.17g) = %.17g raised%s", b.name, Sel<T>::suf(), (double)y[i], (double)x[i], (double)v, names(f).c_str()), hexb(y[i]) + "," + hexb(x[i])); }
      }
      if (e || !told) viol(std::string(b.name) + Sel<T>::suf() + "v", FMT("%s%sv raised%s in an array of %zu", b.name, Sel<T>::suf(), names(e).c_str(), CH), "array");
    }
  });
  for (unsigned i = 1; i < o_threads; ++i) { acc[0].n += acc[i].n; acc[0].c.merge(acc[i].c); }
  rep_count(FMT("evaluations %s%s", b.name, Sel<T>::suf()), acc[0].n);
  rep_cell(FMT("cells %s%s", b.name, Sel<T>::suf()), acc[0].c.count());
}
int main(int argc, char** argv) {
  parse_opts(argc, argv);
  for (int i = 0; i < vdt_n_unary; ++i) {
    const Unary& u = vdt_unary[i];
    if (!is_fast(u.name)) continue;
    unary<double>(u, id_of(u.name));
    unary<float>(u, id_of(u.name));
  }
  for (int i = 0; i < vdt_n_binary; ++i)
    if (is_fast(vdt_binary[i].name)) { two<double>(vdt_binary[i]); two<float>(vdt_binary[i]); }
  rep_sample("invalid and divide-by-zero examined for all arguments, overflow and underflow for ordinary ones");
  rep_done();
  return 0;
}
