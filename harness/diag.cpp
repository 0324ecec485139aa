// Monitors of the diagnostic classes: bit differences, hexadecimal text, pools, responses, comparisons,
// timings, options and function tables. Selected with --mode.
#include <cassert>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <random>
#include <sstream>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "vdtdiag_helper.h"
#include "vdtdiag_random.h"
#include "vdtdiag_fcnResponse.h"
#include "vdtdiag_fcnComparison.h"
#include "vdtdiag_fcnPerformance.h"
#include "vdtdiag_simpleCmd.h"
#include "vdtdiag_fcnTuples.h"
#include "opts.h"
#include <memory>
#include <map>
#include <set>

// ---- interposed clock -----------------------------------------------------------------
static bool clock_on = false;
static uint64_t clock_reads = 0;
static std::function<void(timespec*)> clock_now;
extern "C" int clock_gettime(clockid_t id, struct timespec* t) throw() {
  if (clock_on) { ++clock_reads; clock_now(t); return 0; }
  return (int)syscall(SYS_clock_gettime, id, t);
}

// ---- standard output of the code under test ---------------------------------------------
struct Capture {
  std::ostringstream os; std::streambuf* old; std::ios saved;
  Capture() : saved(0) { saved.copyfmt(std::cout); old = std::cout.rdbuf(os.rdbuf()); }
  ~Capture() { std::cout.flush(); std::cout.rdbuf(old); std::cout.copyfmt(saved); std::cout.clear(); }
  std::string str() { std::cout.flush(); return os.str(); }
};
static std::vector<std::string> lines_of(const std::string& s) {
  std::vector<std::string> v; std::string l; std::istringstream is(s);
  while (std::getline(is, l)) v.push_back(l);
  return v;
}
static std::string slurp(const std::string& p) {
  std::ifstream f(p.c_str(), std::ios::binary);
  std::ostringstream o; o << f.rdbuf();
  return o.str();
}
static std::vector<std::string> words(const std::string& s) {
  std::vector<std::string> v; std::string w; std::istringstream is(s);
  while (is >> w) v.push_back(w);
  return v;
}
template <class T> static std::string hexs(T x) { return FMT("0x%llx", (unsigned long long)bits(x)); }
template <class T> static const char* prec() { return sizeof(T) == 8 ? "Double Precision" : "Single Precision"; }
template <class T> static const char* tn() { return sizeof(T) == 8 ? "double" : "float"; }
static std::string file(const char* n) { return o_dir + "/" + n; }

static std::set<std::string> seen;
static void bad(const std::string& key, const std::string& text) { viol(key, text, "seed"); }
// A number that occurs in the code under test, or one of its neighbours.
template <class T> static T literal(Rng& g) {
  T t = (T)o_lits[g.below(o_lits.size())];
  if (t - t != 0) return 1;
  switch (g.below(4)) { case 0: t = step(t, (int64_t)g.below(5) - 2); break; case 1: t += (T)((int)g.below(3) - 1); break; default: break; }
  return g.below(3) ? t : -t;
}
static uint64_t literal_int(Rng& g) { return lit_ints[g.below(lit_ints.size())] + g.below(3) - 1; }
template <class T> static T anyval(Rng& g) {
  typedef typename Fmt<T>::U U;
  switch (g.below(o_lits.empty() || lit_ints.empty() ? 7 : 9)) {
    case 8: return frombits((U)(g.u64() & 1 ? literal_int(g) : -literal_int(g)), T());  // a whole number of the sources as pattern
    case 7: return literal<T>(g);
    case 6: {  // runs of ones and zeros
      const unsigned w = sizeof(T) * 8;
      U u = (U)-1 >> g.below(w);
      u <<= g.below(w);
      return frombits(g.u64() & 1 ? u : (U)~u, T());
    }
    case 0: return special_value<T>(g);
    case 1: return frombits((U)g.u64(), T());
    case 2: return (T)g.uni(-5000, 5000);
    case 3: return frombits(((U)Fmt<T>::EMAX << Fmt<T>::MB) | ((U)g.u64() & (((U)1 << Fmt<T>::MB) - 1)), T());
    case 4: return frombits((U)g.u64() >> g.below(sizeof(T) * 8), T());
    default: return (T)g.uni(-1, 1);
  }
}
static uint64_t size_of(Rng& g, uint64_t top) {
  switch (g.below(4)) { case 0: return 1 + g.below(4); case 1: return 1 + g.below(40); case 2: return 1 + g.below(300); default: return 1 + g.below(top); }
}
// A few sizes beyond the 15th and 16th bit, late enough to stay out of short instrumented runs.
static std::string word(Rng& g, int lo, int hi) { std::string s; for (uint64_t n = lo + g.below(hi - lo + 1); n; --n) s += (char)('a' + g.below(26)); return s; }
// A name as given or, now and then, a long one or one of several words.
static std::string anyname(Rng& g, const std::string& usual, bool words = true) {
  std::string s = usual;
  switch (g.below(8)) {
    case 0: s += word(g, 20, 400); break;
    case 1: for (uint64_t n = 1 + g.below(6); n && words; --n) s += (g.below(3) ? " " : g.below(2) ? " - " : "_(") + word(g, 1, 8); break;
    case 2: if (words) s = word(g, 1, 3) + " = " + s; break;
    default: break;
  }
  return s;
}
static uint64_t large_size(uint64_t it, Rng& g, uint64_t n) {
  if (it % 10 == 7 && !lit_ints.empty()) {
    const uint64_t l = literal_int(g);
    if (l >= 1 && l <= (it < 200 ? 3000u : 70000u)) return l;
  }
  if (it < 200) return n;
  switch (it % 200) { case 0: return 65530 + g.below(12); case 1: return 32762 + g.below(12); case 2: return 66000 + g.below(70000); default: return n; }
}
template <class T> static bool eqv(const std::vector<T>& a, const std::vector<T>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (bits(a[i]) != bits(b[i])) return false;
  return true;
}

// ---- C22 ------------------------------------------------------------------------------
template <class T> static int ref_diff(T a, T b) {
  uint64_t x = bits(a), y = bits(b), d = x > y ? x - y : y - x;
  int n = 0;
  while (n < 64 && (d >> n)) ++n;
  return n;
}
template <class T> static std::string ref_bits(T a) {
  std::string s;
  const int W = sizeof(T) * 8, MB = Fmt<T>::MB;
  for (int i = W - 1; i >= 0; --i) { s += (bits(a) >> i) & 1 ? '1' : '0'; if (i == W - 1 || i == MB) s += ' '; }
  return s;
}
template <class T> static void pair22(T a, T b, uint64_t& n, Cells& c, int how) {
  unsigned d = vdth::diffbit(a, b), e = vdth::diffbit(b, a);
  int r = ref_diff(a, b);
  n += 2;
  c.hit((uint32_t)(r | (bits(a) >> (sizeof(T) * 8 - 4)) << 7 | (bits(b) >> (sizeof(T) * 8 - 4)) << 11 | (sizeof(T) == 8) << 15));
  if ((int)d != r || (int)e != r)
    viol(std::string("diffbit ") + tn<T>(), FMT("bit difference of %s and %s is %u (exchanged: %u), expected %d", hexb(a).c_str(), hexb(b).c_str(), d, e, r), hexb(a) + "," + hexb(b));
  if (how) {
    std::string s = vdth::getbsasstr(a);
    ++n;
    if (s != ref_bits(a)) viol(std::string("bit string ") + tn<T>(), FMT("bit string of %s is '%s'", hexb(a).c_str(), s.c_str()), hexb(a));
  }
}
template <class T> static void c22() {
  typedef typename Fmt<T>::U U;
  const int W = sizeof(T) * 8;
  std::vector<T> sp;
  for (int e = 0; e < 4; ++e) for (int s = 0; s < 2; ++s) for (int m = 0; m < 4; ++m) {
    U ex[] = {0, 1, (U)Fmt<T>::EMAX - 1, (U)Fmt<T>::EMAX}, ma[] = {0, 1, ((U)1 << Fmt<T>::MB) - 1, (U)1 << (Fmt<T>::MB - 1)};
    sp.push_back(frombits((U)s << (W - 1) | ex[e] << Fmt<T>::MB | ma[m], T()));
  }
  std::vector<Cells> c(o_threads);
  std::atomic<uint64_t> n(0);
  uint64_t m = 0;
  for (size_t i = 0; i < sp.size(); ++i) for (size_t j = 0; j < sp.size(); ++j) pair22<T>(sp[i], sp[j], m, c[0], 1);
  n += m;
  par(o_chunks, [&](uint64_t ch, unsigned t) {
    Rng g(o_seed, 2200 + sizeof(T), ch);
    uint64_t k = 0;
    for (int i = 0; i < 20000; ++i) {
      T a = g.below(2) ? anyval<T>(g) : frombits((U)g.u64(), T()), b;
      U d;
      switch (g.below(5)) {
        case 0: d = (U)1 << g.below(W); break;
        case 1: d = ((U)1 << g.below(W)) - 1; break;
        case 2: d = (U)g.u64() >> g.below(W); break;
        case 3: d = ((U)1 << g.below(W)) + 1; break;
        default: d = 0;
      }
      b = frombits(g.u64() & 1 ? (U)(bits(a) + d) : (U)(bits(a) - d), T());
      if (g.below(6) == 0) b = anyval<T>(g);
      pair22<T>(a, b, k, c[t], i % 64 == 0);
    }
    n += k;
  });
  // what is printed
  Rng g(o_seed, 2210 + sizeof(T), 0);
  uint64_t printed = 0;
  for (int i = 0; i < 2000; ++i) {
    T a = anyval<T>(g), b = g.below(2) ? anyval<T>(g) : frombits((U)(bits(a) + g.below(9)), T());
    Capture cap;
    vdth::print_different_bit(a, b, i % 2 == 0);
    std::vector<std::string> l = lines_of(cap.str());
    ++printed;
    std::string tail = FMT(" is %d", ref_diff(a, b));
    if (i < 8) rep_sample(FMT("%s and %s print '%s'", hexb(a).c_str(), hexb(b).c_str(), l.empty() ? "" : l[0].substr(0, 150).c_str()));
    bool ok = !l.empty() && l[0].size() > tail.size() && l[0].substr(l[0].size() - tail.size()) == tail;
    if (i % 2 == 0) ok = ok && l.size() >= 3 && l[1] == ref_bits(a) && l[2] == ref_bits(b);
    if (!ok) bad(std::string("printed difference ") + tn<T>(), FMT("print of %s and %s: '%s'", hexb(a).c_str(), hexb(b).c_str(), cap.str().substr(0, 200).c_str()));
  }
  for (unsigned i = 1; i < o_threads; ++i) c[0].merge(c[i]);
  rep_count(std::string("differences and bit strings ") + tn<T>(), n);
  rep_count(std::string("printed differences ") + tn<T>(), printed);
  rep_cell(std::string("(difference, leading bits) ") + tn<T>(), c[0].count());
}

// ---- C23 ------------------------------------------------------------------------------
struct Op { int kind; uint64_t v; };  // 0 double, 1 float, 2 decimal integer, 3 the same with leading zeros
static std::string op_text(const Op& o) {
  if (o.kind == 3) return FMT("00%llu ", (unsigned long long)o.v);
  if (o.kind == 2) return FMT("%lld ", (long long)o.v);
  return o.kind == 0 ? FMT("0x%llx ", (unsigned long long)o.v) : FMT("0x%x ", (unsigned)o.v);
}
template <class S> static void run23(const std::vector<Op>& ops, S& st, const char* where, uint64_t& n, const std::function<std::string()>& text, const std::function<void()>& rewind) {
  std::string want;
  for (size_t i = 0; i < ops.size(); ++i) {
    if (ops[i].kind == 0) st << fpToHex<double>(dbl(ops[i].v));
    else if (ops[i].kind == 1) st << fpToHex<float>(flt((uint32_t)ops[i].v));
    else if (ops[i].kind == 3) st << "00" << (unsigned long long)ops[i].v << ' ';
    else st << (long long)ops[i].v << ' ';
    want += op_text(ops[i]);
  }
  std::string got = text();
  n += ops.size();
  if (got != want) {
    size_t k = 0;
    while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
    size_t from = k > 20 ? k - 20 : 0;
    viol("hexadecimal text", FMT("%s holds '...%s', expected '...%s'", where, got.substr(from, 50).c_str(), want.substr(from, 50).c_str()), "seed");
    return;
  }
  rewind();
  for (size_t i = 0; i < ops.size(); ++i) {
    uint64_t r;
    if (ops[i].kind == 0) { fpFromHex<double> f; st >> f; r = bits(f.getValue()); }
    else if (ops[i].kind == 1) { fpFromHex<float> f; st >> f; r = bits(f.getValue()); }
    else { long long x = 0; st >> x; r = (uint64_t)x; }
    ++n;
    if (!st || r != ops[i].v) {
      viol("read back", FMT("element %zu of %zu (%s) was read back from %s as %llx", i, ops.size(), op_text(ops[i]).c_str(), where, (unsigned long long)r), "seed");
      return;
    }
  }
}
static void c23() {
  std::atomic<uint64_t> n(0);
  std::vector<Cells> c(o_threads);
  par(o_chunks, [&](uint64_t ch, unsigned t) {
    Rng g(o_seed, 2300, ch);
    uint64_t m = 0;
    for (int rep = 0; rep < 40; ++rep) {
      std::vector<Op> ops(1 + g.below(60));
      int style = (int)g.below(4);
      for (size_t i = 0; i < ops.size(); ++i) {
        int k = style < 2 ? style : (int)g.below(4);
        ops[i].kind = k;
        if (k == 0) ops[i].v = bits(anyval<double>(g));
        else if (k == 1) ops[i].v = bits(anyval<float>(g));
        else ops[i].v = (uint64_t)((int64_t)g.u64() >> g.below(63));
        if (k == 3) ops[i].v = (ops[i].v >> 1);
        c[t].hit((uint32_t)(k << 18 | (k == 0 ? ops[i].v >> 50 : k == 1 ? ops[i].v >> 18 : ops[i].v >> 50)) & 0xfffff);
      }
      std::stringstream ss;
      switch (g.below(4)) { case 0: ss << std::fixed; break; case 1: ss << std::scientific << std::setprecision(3); break; case 2: ss << std::boolalpha; break; default: break; }
      run23(ops, ss, "a string stream", m, [&] { return ss.str(); }, [&] {});
      if (ch < 8 && rep == 0) rep_sample(FMT("%zu values starting '%s'", ops.size(), ss.str().substr(0, 60).c_str()));
    }
    n += m;
  });
  // files
  Rng g(o_seed, 2301, 0);
  for (int rep = 0; rep < 20; ++rep) {
    std::vector<Op> ops(1 + g.below(3000));
    for (size_t i = 0; i < ops.size(); ++i) { ops[i].kind = (int)g.below(4); ops[i].v = ops[i].kind == 1 ? bits(anyval<float>(g)) : ops[i].kind == 0 ? bits(anyval<double>(g)) : g.below(100000); }
    std::string p = file("hex.txt");
    std::fstream f(p.c_str(), std::ios::in | std::ios::out | std::ios::trunc);
    uint64_t m = 0;
    run23(ops, f, "a file", m, [&] { f.flush(); return slurp(p); }, [&] { f.seekg(0); });
    n += m;
  }
  rep_count("values written and read back in sequences", n);
  // float patterns
  std::atomic<uint64_t> nf(0);
  const uint64_t BLK = 1 << 16;
  par((1ull << 32) / BLK, [&](uint64_t b, unsigned t) {
    std::stringstream ss;
    uint64_t m = 0;
    for (uint64_t u = b * BLK + (o_seed + b * 7) % o_stride; u < (b + 1) * BLK; u += o_stride) {
      ss.clear(); ss.str("");
      ss << fpToHex<float>(flt((uint32_t)u));
      char buf[16]; snprintf(buf, 16, "0x%x ", (unsigned)u);
      if (ss.str() != buf) viol("hexadecimal text", FMT("float %08x written as '%s'", (unsigned)u, ss.str().c_str()), hexb(flt((uint32_t)u)));
      fpFromHex<float> f;
      ss >> f;
      ++m;
      if (bits(f.getValue()) != (uint32_t)u) viol("read back", FMT("float %08x read back as %08x", (unsigned)u, bits(f.getValue())), hexb(flt((uint32_t)u)));
      c[t].hit((uint32_t)(3u << 18 | u >> 14) & 0xfffff);
    }
    nf += m;
  });
  // every exponent with structured mantissas
  std::stringstream sf;
  for (uint64_t e = 0; e < 512; ++e)
    for (int k = 0; k < 48; ++k) {
      const uint32_t u = (uint32_t)(e << 23 | (k < 23 ? 1u << k : k < 46 ? ((1u << 23) - 1) ^ (1u << (k - 23)) : k == 46 ? 0 : (1u << 23) - 1));
      sf.clear(); sf.str("");
      sf << fpToHex<float>(flt(u));
      char buf[16]; snprintf(buf, 16, "0x%x ", (unsigned)u);
      if (sf.str() != buf) viol("hexadecimal text", FMT("float %08x written as '%s'", (unsigned)u, sf.str().c_str()), hexb(flt(u)));
      fpFromHex<float> f;
      sf >> f;
      ++nf;
      if (bits(f.getValue()) != u) viol("read back", FMT("float %08x read back as %08x", (unsigned)u, bits(f.getValue())), hexb(flt(u)));
    }
  rep_count("float patterns written and read back", nf);
  // double: every exponent with structured mantissas, every single bit, both signs
  uint64_t nd = 0;
  std::stringstream ss;
  for (uint64_t e = 0; e < 4096; ++e)
    for (int k = 0; k < 54; ++k) {
      uint64_t u = e << 52 | (k < 52 ? 1ull << k : k == 52 ? 0 : (1ull << 52) - 1);
      ss.clear(); ss.str("");
      ss << fpToHex<double>(dbl(u));
      fpFromHex<double> f;
      char buf[24]; snprintf(buf, 24, "0x%llx ", (unsigned long long)u);
      if (ss.str() != buf) viol("hexadecimal text", FMT("double %016llx written as '%s'", (unsigned long long)u, ss.str().c_str()), hexb(dbl(u)));
      ss >> f;
      ++nd;
      if (bits(f.getValue()) != u) viol("read back", FMT("double %016llx read back as %016llx", (unsigned long long)u, (unsigned long long)bits(f.getValue())), hexb(dbl(u)));
    }
  rep_count("double patterns written and read back", nd);
  for (unsigned i = 1; i < o_threads; ++i) c[0].merge(c[i]);
  rep_cell("(kind, leading bits)", c[0].count());
}

// ---- C24 ------------------------------------------------------------------------------
static uint64_t fnv(uint64_t h, uint64_t v) { for (int i = 0; i < 8; ++i) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; } return h; }
// valgrind computes long double in double precision; whole-range pools are left out there.
static bool wide_long_double() { volatile long double a = 1e308L; a *= 100; return a - a == 0; }
template <class T> static void limits(Rng& g, T& lo, T& hi) {
  do {
    const T top = std::numeric_limits<T>::max();
    unsigned c = g.below(o_lits.empty() ? 8 : 9);
    if (c == 6 && !wide_long_double()) c = 0;
    switch (c) {
      case 6: lo = -top * (T)g.uni(.6, 1); hi = top * (T)g.uni(.6, 1); if (g.below(2)) { lo = -top; hi = top; } break;  // longer than the largest number
      case 7: lo = std::numeric_limits<T>::min() * (T)g.uni(-3, 3); hi = std::numeric_limits<T>::min() * (T)g.uni(-3, 3); break;
      case 8:
        do lo = literal<T>(g); while (lo != 0 && !(fabs((double)lo) > 1e-30 && fabs((double)lo) < 1e30));
        do hi = g.below(4) ? literal<T>(g) : -lo; while (hi != 0 && !(fabs((double)hi) > 1e-30 && fabs((double)hi) < 1e30));
        break;
      case 0: lo = (T)-5000; hi = (T)5000; break;
      case 1: lo = (T).0001; hi = (T)5000; break;
      case 2: lo = -1; hi = 1; break;
      case 3: lo = (T)(g.uni(-1, 1) * std::pow(10., g.uni(-30, 30))); hi = (T)(g.uni(-1, 1) * std::pow(10., g.uni(-30, 30))); break;
      case 4: lo = (T)g.uni(-700, 700); hi = (T)(lo + std::pow(10., g.uni(-3, 3))); break;
      default: lo = (T)(double)((int)g.below(2000) - 1000); hi = (T)(lo + 1 + g.below(100));
    }
    if (lo > hi) std::swap(lo, hi);
  } while (!(lo < hi) || (long double)hi - lo < 1e-6L * ((long double)fabs((double)lo) + fabs((double)hi)));
}
static bool close6(const std::string& s, double x) {  // a number printed with six digits
  char* e; double v = strtod(s.c_str(), &e);
  return *e == 0 && !s.empty() && (v == x || fabs(v / 2 - x / 2) <= 1e-5 * fabs(x / 2) || (v - v != 0 && fabs(x) > 1.7976e308 && (v > 0) == (x > 0)));
}
template <class T> static void header24(const std::vector<std::string>& l, const std::string& key, double lo, double hi, double lo2, double hi2, bool two, uint64_t n) {
  if (l.size() < 5) { bad(key, "pool file has fewer than 5 lines"); return; }
  std::vector<std::string> a = words(l[2]), b = words(l[3]), c = words(l[4]);
  bool ok = l[1] == prec<T>();
  size_t k = two ? 2 : 1;
  ok = ok && a.size() >= k && b.size() >= k && c.size() >= 1;
  if (ok) {
    ok = close6(a[a.size() - k], lo) && close6(b[b.size() - k], hi) && c.back() == std::to_string(n);
    if (two) ok = ok && close6(a.back(), lo2) && close6(b.back(), hi2);
    ok = ok && l[2].compare(0, 7, "Minimum") == 0 && l[3].compare(0, 7, "Maximum") == 0 && l[4].compare(0, 5, "Total") == 0;
  }
  if (!ok) bad(key, FMT("pool header '%s' | '%s' | '%s' | '%s' for [%g, %g], %llu numbers", l[1].c_str(), l[2].c_str(), l[3].c_str(), l[4].c_str(), lo, hi, (unsigned long long)n));
}
static bool body_values(const std::string& text, std::vector<uint64_t>& v) {  // after 5 lines, all hexadecimal words
  size_t p = 0;
  for (int i = 0; i < 5; ++i) { p = text.find('\n', p); if (p == std::string::npos) return false; ++p; }
  std::vector<std::string> w = words(text.substr(p));
  for (size_t i = 0; i < w.size(); ++i) {
    if (w[i].compare(0, 2, "0x") != 0) return false;
    char* e; v.push_back(strtoull(w[i].c_str() + 2, &e, 16));
    if (*e) return false;
  }
  return true;
}
template <class T> static void quarters(const std::vector<T>& v, T lo, T hi, const std::string& key) {
  if (v.size() < 1000) return;
  uint64_t q[4] = {0, 0, 0, 0};
  for (size_t i = 0; i < v.size(); ++i) { long double f = ((long double)v[i] - lo) / ((long double)hi - lo) * 4; int k = f < 0 ? 0 : f >= 4 ? 3 : (int)f; ++q[k]; }
  for (int k = 0; k < 4; ++k)
    if (q[k] < v.size() / 8 || q[k] > v.size() / 2) bad(key, FMT("pool over [%g, %g]: quarter %d of the interval holds %llu of %zu numbers", (double)lo, (double)hi, k, (unsigned long long)q[k], v.size()));
}
static int32_t other_seed(Rng& g, int32_t s) {
  switch (g.below(5)) {
    case 0: return (int32_t)((uint32_t)s ^ 1u << g.below(32));
    case 1: return s != 0 && s != std::numeric_limits<int32_t>::min() ? -s : s ^ 1;
    case 2: return (int32_t)((uint32_t)s + 1 + (uint32_t)g.below(0xfffffffe));
    default: return (int32_t)((uint32_t)s + 1 + (uint32_t)g.below(1000));
  }
}
template <class Pool, class T> static uint64_t pool1(Rng& g, T lo, T hi, uint64_t n, int32_t seed, const std::string& K, uint64_t& hash) {
  Pool a(lo, hi, n, seed), b(lo, hi, n, seed), big(lo, hi, n + 1 + g.below(50), seed), other(lo, hi, n, other_seed(g, seed));
  const std::vector<T>& v = a.getNumbers();
  if (v.size() != n) bad(K + " size", FMT("pool of %llu numbers holds %zu", (unsigned long long)n, v.size()));
  for (size_t i = 0; i < v.size(); ++i) if (!(v[i] >= lo && v[i] <= hi)) { bad(K + " range", FMT("number %zu is %.17g, outside [%.17g, %.17g]", i, (double)v[i], (double)lo, (double)hi)); break; }
  quarters<T>(v, lo, hi, K + " spread");
  if (!eqv(v, b.getNumbers())) bad(K + " reproducibility", FMT("two pools with seed %d and size %llu differ", seed, (unsigned long long)n));
  for (size_t i = 0; i < v.size() && i < big.getNumbers().size(); ++i) if (bits(v[i]) != bits(big.getNumbers()[i])) { bad(K + " prefix", FMT("larger pool differs at %zu (seed %d, size %llu)", i, seed, (unsigned long long)n)); break; }
  if (n >= 8 && eqv(v, other.getNumbers())) bad(K + " seeds", FMT("pools with different seeds (%d and another) are equal", seed));
  for (size_t i = 0; i < v.size(); ++i) hash = fnv(hash, bits(v[i]));
  std::string p = file("pool1.txt"), q = file("pool2.txt"), r = file("pool3.txt");
  a.writeFile(p);
  std::string t = slurp(p);
  header24<T>(lines_of(t), K + " header", lo, hi, 0, 0, false, n);
  std::vector<uint64_t> w;
  bool ok = body_values(t, w) && w.size() == v.size();
  for (size_t i = 0; ok && i < w.size(); ++i) ok = w[i] == bits(v[i]);
  if (!ok) bad(K + " file", FMT("file of a pool of %llu numbers does not hold them in order", (unsigned long long)n));
  Pool x(p);
  if (!eqv(x.getNumbers(), v)) bad(K + " reload", FMT("pool of %llu numbers read from file has %zu or other numbers", (unsigned long long)n, x.getNumbers().size()));
  x.writeFile(q);
  std::string t2 = slurp(q);
  if (t2.find('\n') == std::string::npos || t2.substr(t2.find('\n')) != t.substr(t.find('\n'))) bad(K + " rewrite", "a pool read from a file and written again differs after the first line");
  Pool y(q);
  if (!eqv(y.getNumbers(), v)) bad(K + " reload", "pool read again from the rewritten file has other numbers");
  y.writeFile(r);
  std::string t3 = slurp(r);
  if (t3.find('\n') == std::string::npos || t3.substr(t3.find('\n')) != t.substr(t.find('\n'))) bad(K + " rewrite", "second rewrite differs after the first line");
  return v.size();
}
template <class T> static uint64_t c24(uint64_t hash) {
  std::string K = std::string("pool ") + tn<T>();
  uint64_t pools = 0, numbers = 0;
  for (uint64_t it = 0; it < o_chunks; ++it) {
    Rng g(o_seed, 2400 + sizeof(T), it);
    Capture cap;
    T lo, hi, lo2, hi2;
    limits<T>(g, lo, hi); limits<T>(g, lo2, hi2);
    uint64_t n = large_size(it, g, size_of(g, 5000));
    int32_t seed = g.below(3) ? (int32_t)g.below(1000) + 1 : g.below(8) ? (int32_t)g.u64() : 0;
    if (!lit_ints.empty() && g.below(5) == 0) seed = (int32_t)literal_int(g);
    seen.insert(FMT("%s %d %d", tn<T>(), (int)log2((double)n), (int)floor(log10(fabs((double)hi) + 1e-300) / 4)));
    {  // one dimension
      randomPool1D<T> sized(lo, hi, n, seed);
      if (sized.getSize() != n) bad(K + " size", FMT("pool of %llu numbers says %llu", (unsigned long long)n, (unsigned long long)sized.getSize()));
      numbers += pool1<randomPool1D<T>, T>(g, lo, hi, n, seed, K, hash);
      pools += 5;
      if (it % 4 == 0) { numbers += pool1<randomPool_old<T>, T>(g, lo, hi, n, seed, K + " of the older class", hash); pools += 4; }
    }
    {  // two dimensions
      randomPool2D<T> a(lo, lo2, hi, hi2, n, seed), b(lo, lo2, hi, hi2, n, seed), other(lo, lo2, hi, hi2, n, other_seed(g, seed));
      pools += 3; numbers += a.getNumbersX().size() + a.getNumbersY().size();
      const std::vector<T>&vx = a.getNumbersX(), &vy = a.getNumbersY();
      std::string K2 = K + " 2D";
      if (vx.size() != n || vy.size() != n) bad(K2 + " size", FMT("pool of %llu pairs holds %zu and %zu", (unsigned long long)n, vx.size(), vy.size()));
      for (size_t i = 0; i < vx.size(); ++i) if (!(vx[i] >= lo && vx[i] <= hi)) { bad(K2 + " range", FMT("x %zu is %.17g, outside [%.17g, %.17g]", i, (double)vx[i], (double)lo, (double)hi)); break; }
      for (size_t i = 0; i < vy.size(); ++i) if (!(vy[i] >= lo2 && vy[i] <= hi2)) { bad(K2 + " range", FMT("y %zu is %.17g, outside [%.17g, %.17g]", i, (double)vy[i], (double)lo2, (double)hi2)); break; }
      quarters<T>(vx, lo, hi, K2 + " spread"); quarters<T>(vy, lo2, hi2, K2 + " spread");
      if (!eqv(vx, b.getNumbersX()) || !eqv(vy, b.getNumbersY())) bad(K2 + " reproducibility", FMT("two pools with seed %d differ", seed));
      if (n >= 8 && (eqv(vx, other.getNumbersX()) || eqv(vy, other.getNumbersY()))) bad(K2 + " seeds", "pools with different seeds are equal");
      if (n >= 8) {  // x and y are independent numbers, not the same draw scaled to two intervals
        bool same = true;
        for (size_t i = 0; i < n && same; ++i) same = fabsl(((long double)vx[i] - lo) / ((long double)hi - lo) - ((long double)vy[i] - lo2) / ((long double)hi2 - lo2)) < 1e-4L;
        if (same) bad(K2 + " independence", FMT("x and y of a pool of %llu pairs are the same draw", (unsigned long long)n));
      }
      for (size_t i = 0; i < n && i < vx.size() && i < vy.size(); ++i) { hash = fnv(hash, bits(vx[i])); hash = fnv(hash, bits(vy[i])); }
      std::string p = file("pool1.txt"), q = file("pool2.txt");
      a.writeFile(p);
      std::string t = slurp(p);
      header24<T>(lines_of(t), K2 + " header", lo, hi, lo2, hi2, true, n);
      std::vector<uint64_t> w;
      bool ok = body_values(t, w) && w.size() == 2 * vx.size() && vy.size() == vx.size();
      for (size_t i = 0; ok && i < vx.size(); ++i) ok = w[2 * i] == bits(vx[i]) && w[2 * i + 1] == bits(vy[i]);
      if (!ok) bad(K2 + " file", "file of a two-dimensional pool does not hold x and y alternately");
      randomPool2D<T> x(p);
      if (!eqv(x.getNumbersX(), vx) || !eqv(x.getNumbersY(), vy)) bad(K2 + " reload", FMT("two-dimensional pool of %llu pairs read from file differs", (unsigned long long)n));
      x.writeFile(q);
      std::string t2 = slurp(q);
      if (t2.find('\n') == std::string::npos || t2.substr(t2.find('\n')) != t.substr(t.find('\n'))) bad(K2 + " rewrite", "a pool read from a file and written again differs after the first line");
      randomPool2D<T> y(q);
      if (!eqv(y.getNumbersX(), vx) || !eqv(y.getNumbersY(), vy)) bad(K2 + " reload", "pool read again from the rewritten file has other numbers");
    }
  }
  rep_count(std::string("pools ") + tn<T>(), pools);
  rep_count(std::string("numbers examined ") + tn<T>(), numbers);
  return hash;
}

// Pools with more than 2^20 and 2^24 numbers.
template <class T> static void large24() {
  const std::string K = std::string("large pool ") + tn<T>();
  Rng g(o_seed, 2450 + sizeof(T), 0);
  Capture cap;
  T lo, hi, lo2, hi2;
  limits<T>(g, lo, hi); limits<T>(g, lo2, hi2);
  const int32_t seed = (int32_t)g.below(1000) + 1;
  const uint64_t n = (1u << 24) + 1 + g.below(300000), m = (1u << 20) + 1 + g.below(300000);
  randomPool1D<T> a(lo, hi, n, seed), b(lo, hi, m, seed);
  const std::vector<T>&v = a.getNumbers(), &u = b.getNumbers();
  if (v.size() != n || u.size() != m) bad(K + " size", FMT("pools of %llu and %llu numbers hold %zu and %zu", (unsigned long long)n, (unsigned long long)m, v.size(), u.size()));
  for (size_t i = 0; i < v.size(); ++i) if (!(v[i] >= lo && v[i] <= hi)) { bad(K + " range", FMT("number %zu is %.17g, outside [%.17g, %.17g]", i, (double)v[i], (double)lo, (double)hi)); break; }
  for (size_t i = 0; i < v.size() && i < u.size(); ++i) if (bits(v[i]) != bits(u[i])) { bad(K + " prefix", FMT("larger pool differs at %zu (seed %d)", i, seed)); break; }
  quarters<T>(v, lo, hi, K + " spread");
  if (v.size() > 2000000) quarters<T>(std::vector<T>(v.end() - 1000000, v.end()), lo, hi, K + " spread");
  const std::string p = file("large.txt");
  b.writeFile(p);
  randomPool1D<T> x(p);
  if (!eqv(x.getNumbers(), u)) bad(K + " reload", FMT("pool of %llu numbers read from file has %zu or other numbers", (unsigned long long)m, x.getNumbers().size()));
  randomPool2D<T> c(lo, lo2, hi, hi2, m, seed);
  const std::vector<T>&vx = c.getNumbersX(), &vy = c.getNumbersY();
  if (vx.size() != m || vy.size() != m) bad(K + " 2D size", FMT("pool of %llu pairs holds %zu and %zu", (unsigned long long)m, vx.size(), vy.size()));
  quarters<T>(vx, lo, hi, K + " 2D spread"); quarters<T>(vy, lo2, hi2, K + " 2D spread");
  c.writeFile(p);
  randomPool2D<T> y(p);
  if (!eqv(y.getNumbersX(), vx) || !eqv(y.getNumbersY(), vy)) bad(K + " 2D reload", FMT("two-dimensional pool of %llu pairs read from file differs", (unsigned long long)m));
  remove(p.c_str());
  seen.insert(FMT("%s %d large", tn<T>(), (int)log2((double)n)));
  seen.insert(FMT("%s %d large", tn<T>(), (int)log2((double)m)));
  rep_count(std::string("numbers of large pools ") + tn<T>(), v.size() + u.size() + vx.size() + vy.size());
}

// ---- C25 ------------------------------------------------------------------------------
template <class T> static T scramble(T a) {  // some function whose results are arbitrary patterns
  typedef typename Fmt<T>::U U;
  uint64_t z = bits(a) * 0x9e3779b97f4a7c15ULL + 12345;
  z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ULL; z ^= z >> 32;
  if (z % 7 == 0) return frombits((U)z | ((U)Fmt<T>::EMAX << Fmt<T>::MB), T());
  if (z % 7 == 1) return frombits((U)z & (((U)1 << Fmt<T>::MB) - 1), T());
  return frombits((U)z, T());
}
template <class T> static T scramble2(T a, T b) { typedef typename Fmt<T>::U U; return scramble<T>(frombits((U)(bits(a) * 3 + (bits(scramble<T>(b)) ^ 0x55)), T())); }
template <class T> static void scramblev(uint32_t n, T* a, T* o) { for (uint32_t i = 0; i < n; ++i) o[i] = scramble<T>(a[i]); }
template <class T> static void scramble2v(uint32_t n, T* a, T* b, T* o) { for (uint32_t i = 0; i < n; ++i) o[i] = scramble2<T>(a[i], b[i]); }

static void rows(const std::string& key, const std::string& text, const std::string& precision, const std::string& name, const std::vector<std::string>& want) {
  std::vector<std::string> l = lines_of(text);
  if (l.size() != want.size() + 5) { bad(key, FMT("file has %zu lines, expected 5 and %zu", l.size(), want.size())); return; }
  if (l[1] != precision) bad(key, "second header line is '" + l[1] + "', expected '" + precision + "'");
  bool named = false;
  for (int i = 0; i < 5; ++i) { size_t p = l[i].rfind(name); named |= p != std::string::npos && p + name.size() == l[i].size() && (p == 0 || l[i][p - 1] == ' '); }
  if (!named) bad(key, "no header line ends with the function name '" + name + "'");
  for (size_t i = 0; i < want.size(); ++i) {
    std::vector<std::string> a = words(l[i + 5]), b = words(want[i]);
    if (a != b) { bad(key, FMT("row %zu is '%s', expected '%s'", i, l[i + 5].c_str(), want[i].c_str())); return; }
  }
}
static void rewritten(const std::string& key, const std::string& t, const std::string& t2) {
  if (t2.find('\n') == std::string::npos || t2.substr(t2.find('\n')) != t.substr(std::min(t.size(), t.find('\n')))) bad(key + " rewrite", "what was read from a file and written again differs after the first line");
}
template <class R, class T> static void response1(const std::string& KF, const std::string& name, const std::vector<T>& x, const std::vector<T>& r1, const std::vector<std::string>& want, bool arr, const std::string& p, const std::string& q, std::string& t, std::string& t2) {
  unsigned long long n = x.size();
  R* a = arr ? new R(name, x, std::function<void(uint32_t, T*, T*)>(scramblev<T>)) : new R(name, x, std::function<T(T)>(scramble<T>));
  if (!eqv(a->getInput(), x)) bad(KF + " inputs", FMT("inputs of a response of %llu are not those given", n));
  if (!eqv(a->getOutput(), r1)) bad(KF + " outputs", FMT("outputs of a response of %llu are not the values of the function", n));
  a->writeFile(p); t = slurp(p);
  rows(KF + " file", t, prec<T>(), name, want);
  R b(p);
  if (!eqv(b.getInput(), x) || !eqv(b.getOutput(), r1)) bad(KF + " reload", FMT("response of %llu read from file differs (%zu inputs, %zu outputs)", n, b.getInput().size(), b.getOutput().size()));
  b.writeFile(q); t2 = slurp(q);
  R c(q);
  if (!eqv(c.getInput(), x) || !eqv(c.getOutput(), r1)) bad(KF + " reload", "response read from the rewritten file differs");
  delete a;
}
template <class T> static void c25() {
  std::string K = std::string("response ") + tn<T>();
  uint64_t made = 0, values = 0;
  for (uint64_t it = 0; it < o_chunks; ++it) {
    Rng g(o_seed, 2500 + sizeof(T), it);
    Capture cap;
    uint64_t n = large_size(it, g, size_of(g, 3000));
    std::vector<T> x(n), y(n), r1(n), r2(n);
    for (size_t i = 0; i < n; ++i) { x[i] = anyval<T>(g); y[i] = anyval<T>(g); r1[i] = scramble<T>(x[i]); r2[i] = scramble2<T>(x[i], y[i]); }
    std::string name = anyname(g, FMT("Fcn_%c%llu%s", 'A' + (char)g.below(26), (unsigned long long)g.below(100), g.below(2) ? "fv" : ""));
    seen.insert(FMT("%s %d", tn<T>(), (int)log2((double)n)));
    for (int form = 0; form < 4; ++form) {
      bool two = form & 1, arr = form & 2;
      std::string KF = K + (two ? " two arguments" : " one argument") + (arr ? " array" : " scalar");
      std::vector<std::string> want(n);
      for (size_t i = 0; i < n; ++i) want[i] = hexs(x[i]) + " " + (two ? hexs(y[i]) + " " + hexs(r2[i]) : hexs(r1[i]));
      std::string p = file("resp1.txt"), q = file("resp2.txt"), t, t2;
      ++made; values += n;
      if (!two) {
        response1<fcnResponse1D<T>, T>(KF, name, x, r1, want, arr, p, q, t, t2);
      } else {
        fcnResponse2D<T>* a = arr ? new fcnResponse2D<T>(name, x, y, std::function<void(uint32_t, T*, T*, T*)>(scramble2v<T>)) : new fcnResponse2D<T>(name, x, y, std::function<T(T, T)>(scramble2<T>));
        if (!eqv(a->getInput1(), x) || !eqv(a->getInput2(), y)) bad(KF + " inputs", FMT("inputs of a response of %llu are not those given", (unsigned long long)n));
        if (!eqv(a->getOutput(), r2)) bad(KF + " outputs", FMT("outputs of a response of %llu are not the values of the function", (unsigned long long)n));
        a->writeFile(p); t = slurp(p);
        rows(KF + " file", t, prec<T>(), name, want);
        fcnResponse2D<T> b(p);
        if (!eqv(b.getInput1(), x) || !eqv(b.getInput2(), y) || !eqv(b.getOutput(), r2)) bad(KF + " reload", FMT("response of %llu read from file differs", (unsigned long long)n));
        b.writeFile(q); t2 = slurp(q);
        fcnResponse2D<T> c(q);
        if (!eqv(c.getInput1(), x) || !eqv(c.getInput2(), y) || !eqv(c.getOutput(), r2)) bad(KF + " reload", "response read from the rewritten file differs");
        delete a;
      }
      rewritten(KF, t, t2);
      seen.insert(KF);
      if (!two && it % 3 == 0) {
        KF = "older " + KF;
        ++made; values += n;
        response1<fcnResponse_old<T>, T>(KF, name, x, r1, want, arr, p, q, t, t2);
        rewritten(KF, t, t2);
        seen.insert(KF);
      }
    }
  }
  rep_count(std::string("responses ") + tn<T>(), made);
  rep_count(std::string("values examined ") + tn<T>(), values);
}

// ---- C26 ------------------------------------------------------------------------------
struct Stats { int max, min; double mean, rms, tol; };
static Stats stats_of(const std::vector<int>& d) {
  Stats s; s.max = 0; s.min = 255;
  __int128 sx = 0, sx2 = 0;
  for (size_t i = 0; i < d.size(); ++i) { s.max = std::max(s.max, d[i]); s.min = std::min(s.min, d[i]); sx += d[i]; sx2 += d[i] * d[i]; }
  long double n = (long double)d.size();
  s.mean = (double)((long double)sx / n);
  s.rms = d.size() == 1 ? -1 : (double)(((long double)sx2 * n - (long double)sx * (long double)sx) / n / (n - 1));
  s.tol = 1e-11 * (double)((long double)sx2 / n * 2 + 1);
  return s;
}
static bool dec_close(const std::string& w, double x, int digits) {
  char* e; double v = strtod(w.c_str(), &e);
  if (w.empty() || *e) return false;
  if (x != x) return v != v;
  return v == x || fabs(v - x) <= 2 * std::pow(10., -digits) + 1e-14 * fabs(x);
}
template <class T> static void file26(const std::string& K, const std::string& text, const std::string& name, const std::vector<T>& x, const std::vector<T>* y, const std::vector<T>& o1, const std::vector<T>& o2, const std::vector<int>& d, const Stats& s) {
  std::vector<std::string> l = lines_of(text);
  size_t n = x.size();
  if (l.size() != n + 6) { bad(K + " file", FMT("comparison file has %zu lines, expected 6 and %zu", l.size(), n)); return; }
  if (l[1] != prec<T>()) bad(K + " file", "precision line is '" + l[1] + "'");
  bool named = false;
  for (int i = 0; i < 5; ++i) { size_t p = l[i].rfind(name); named |= p != std::string::npos && p + name.size() == l[i].size(); }
  if (!named) bad(K + " file", "no header line ends with the name");
  std::vector<std::string> w = words(l[5]);
  if (w.size() != 4 || w[0] != std::to_string(s.max) || w[1] != std::to_string(s.min) || w[2].compare(0, 2, "0x") || w[3].compare(0, 2, "0x")) bad(K + " statistics", FMT("statistics line '%s', expected maximum %d, minimum %d, mean %g, RMS %g", l[5].c_str(), s.max, s.min, s.mean, s.rms));
  else {
    double m = dbl(strtoull(w[2].c_str() + 2, 0, 16)), r = dbl(strtoull(w[3].c_str() + 2, 0, 16));
    if (!(fabs(m - s.mean) <= s.tol)) bad(K + " statistics", FMT("mean %.17g, expected %.17g (%zu pairs)", m, s.mean, n));
    if (!(fabs(r - s.rms) <= 4 * s.tol * (n > 1 ? (double)n / (n - 1) : 1))) bad(K + " statistics", FMT("RMS %.17g, expected %.17g (%zu pairs)", r, s.rms, n));
  }
  int digits = std::numeric_limits<T>::digits10;
  for (size_t i = 0; i < n; ++i) {
    w = words(l[i + 6]);
    size_t k = 0;
    bool ok = w.size() == (y ? 7u : 5u) && w[k++] == hexs(x[i]) && (!y || w[k++] == hexs((*y)[i])) && w[k++] == hexs(o1[i]) && w[k++] == hexs(o2[i]) && w[k++] == std::to_string(d[i]) && dec_close(w[k++], x[i], digits) && (!y || dec_close(w[k++], (*y)[i], digits));
    if (!ok) { bad(K + " rows", FMT("row %zu is '%s' for results %s and %s, %d bits, input %.9g", i, l[i + 6].substr(0, 200).c_str(), hexs(o1[i]).c_str(), hexs(o2[i]).c_str(), d[i], (double)x[i])); return; }
  }
}
static std::string num2(const std::string& line) { return line.substr(line.find(':') + 1); }
// Statistics as printed, table and text form. text: precision of 2 digits.
template <class C> static void printed26(const std::string& K, C& c, const std::string& name, const Stats& s) {
  std::string t, u;
  { Capture cap; c.printStats(true); t = cap.str(); }
  { Capture cap; c.printStats(); u = cap.str(); }
  std::string want = FMT("%-30s%5d%5d%7.2f%7.2f\n", name.c_str(), s.max, s.min, s.mean, s.rms);
  if (t != want) {  // the last decimal may be rounded either way
    std::vector<std::string> a = words(t.size() > name.size() ? t.substr(name.size()) : "");
    bool ok = t.compare(0, name.size(), name) == 0 && a.size() == 4 && a[0] == std::to_string(s.max) && a[1] == std::to_string(s.min) && fabs(atof(a[2].c_str()) - s.mean) < 0.0051 && fabs(atof(a[3].c_str()) - s.rms) < 0.0051;
    if (!ok) bad(K + " table line", FMT("table line '%s', expected '%s'", t.substr(0, 100).c_str(), want.c_str()));
  }
  std::vector<std::string> l = lines_of(u);
  bool ok = l.size() == 5 && l[0].find(name) != std::string::npos && atoi(num2(l[1]).c_str()) == s.max && atoi(num2(l[2]).c_str()) == s.min;
  if (ok) {
    double m = atof(num2(l[3]).c_str()), r = atof(num2(l[4]).c_str());
    ok = fabs(m - s.mean) <= 0.06 * fabs(s.mean) + 1e-9 && fabs(r - s.rms) <= 0.06 * fabs(s.rms) + 4 * s.tol + 1e-9;
  }
  if (!ok) bad(K + " printed statistics", FMT("printed '%s' for %d %d %g %g", u.substr(0, 200).c_str(), s.max, s.min, s.mean, s.rms));
  if (c.hasDifference() != (s.max > 0)) bad(K + " has difference", FMT("hasDifference is %d with a maximum of %d", (int)c.hasDifference(), s.max));
}
template <class C, class T> static void print26(const std::string& K, C& c, const std::string& name, const std::vector<T>& x, const std::vector<T>* y, const std::vector<T>& o1, const std::vector<T>& o2, const std::vector<int>& d) {
  std::string u;
  { Capture cap; c.print(); u = cap.str(); }
  std::vector<std::string> l = lines_of(u);
  size_t n = x.size();
  if (l.size() < n + 1) { bad(K + " print", FMT("print gives %zu lines for %zu rows", l.size(), n)); return; }
  auto same = [](const std::string& w, T v) { char* e; double r = strtod(w.c_str(), &e); return v != v ? r != r : (T)r == v || fabs(r - (double)v) <= 1e-6 * fabs((double)v) + 1e-44; };
  for (size_t i = 0; i < n; ++i) {
    std::string pre = FMT("%zu/%zu ", i, n) + name + "(", s = l[i + 1];
    size_t q = s.find(" ) = ");
    bool ok = s.compare(0, pre.size(), pre) == 0 && q != std::string::npos;
    if (ok) {
      std::string in = s.substr(pre.size(), q - pre.size());
      for (size_t k = 0; k < in.size(); ++k) if (in[k] == ',') in[k] = ' ';
      std::vector<std::string> a = words(in), b = words(s.substr(q + 5));
      ok = a.size() == (y ? 2u : 1u) && same(a[0], x[i]) && (!y || same(a[1], (*y)[i])) && b.size() == 5 && same(b[0], o1[i]) && same(b[1], o2[i]) &&
           strtoull(b[2].c_str(), 0, 16) == bits(o1[i]) && strtoull(b[3].c_str(), 0, 16) == bits(o2[i]) && b[4] == std::to_string(d[i]);
    }
    if (!ok) { bad(K + " print", FMT("printed row '%s' for row %zu, results %s %s, %d bits", s.substr(0, 200).c_str(), i, hexs(o1[i]).c_str(), hexs(o2[i]).c_str(), d[i])); return; }
  }
}
template <class C, class T> static void comparison(const std::string& k, C& a, const std::string& name, const std::vector<T>& x, const std::vector<T>* py, const std::vector<T>& o1, const std::vector<T>& o2, const std::vector<int>& d, const Stats& s, const std::string& p, const std::string& q) {
  const size_t n = x.size();
  printed26(k, a, name, s);
  if (n < 400 || n > 60000) print26(k, a, name, x, py, o1, o2, d);
  a.writeFile(p);
  std::string t = slurp(p);
  file26<T>(k, t, name, x, py, o1, o2, d, s);
  C b(p);
  printed26(k + " reloaded", b, "From " + p, s);
  if (n < 400 || n > 60000) print26(k + " reloaded", b, "From " + p, x, py, o1, o2, d);
  else { std::string u; { Capture cap; b.print(); u = cap.str(); } if (lines_of(u).size() < n + 1) bad(k + " reloaded print", FMT("%zu lines for %zu rows", lines_of(u).size(), n)); }
  b.writeFile(q);
  rewritten(k, t, slurp(q));
}
template <class T> static void c26() {
  typedef typename Fmt<T>::U U;
  std::string K = std::string("comparison ") + tn<T>();
  uint64_t made = 0, pairs = 0;
  for (uint64_t it = 0; it < o_chunks; ++it) {
    Rng g(o_seed, 2600 + sizeof(T), it);
    uint64_t n = large_size(it, g, size_of(g, 3000));
    std::vector<T> x(n), y(n), o1(n), o2(n);
    std::vector<int> d(n);
    int style = (int)g.below(5);
    U base = (U)1 << g.below(sizeof(T) * 8 - 1);
    for (size_t i = 0; i < n; ++i) {
      x[i] = style == 4 ? (T)g.uni(-5000, 5000) : anyval<T>(g); y[i] = style == 4 ? (T)g.uni(-1, 1) : anyval<T>(g); o1[i] = anyval<T>(g);
      U e = 0;
      switch (style) {
        case 0: e = 0; break;
        case 1: e = (U)g.below(4); break;
        case 2: e = (U)g.u64() >> g.below(sizeof(T) * 8); break;
        case 3: e = base; break;
        default: e = g.below(50) ? 0 : (U)1 << g.below(sizeof(T) * 8 - 1);
      }
      o2[i] = frombits(g.u64() & 1 ? (U)(bits(o1[i]) + e) : (U)(bits(o1[i]) - e), T());
      d[i] = ref_diff(o1[i], o2[i]);
    }
    Stats s = stats_of(d);
    std::string name = anyname(g, FMT("Fcn%llu %s VS %s", (unsigned long long)g.below(100), g.below(2) ? "A" : "ref", "B"));
    seen.insert(FMT("%s %d %d %d", tn<T>(), (int)log2((double)n), s.max, style));
    for (int two = 0; two < 2; ++two) {
      std::string KF = K + (two ? " two inputs" : " one input");
      std::string p = file("cmp1.txt"), q = file("cmp2.txt");
      ++made; pairs += n;
      const std::vector<T>* py = two ? &y : 0;
      if (!two) {
        fcnComparison1D<T> a(name, x, o1, o2);
        comparison(KF, a, name, x, py, o1, o2, d, s, p, q);
        if (it % 3 == 0) {
          ++made; pairs += n;
          fcnComparison_old<T> e(name, x, o1, o2);
          comparison("older " + KF, e, name, x, py, o1, o2, d, s, p, q);
          seen.insert("older " + KF);
        }
      } else {
        fcnComparison2D<T> a(name, x, y, o1, o2);
        comparison(KF, a, name, x, py, o1, o2, d, s, p, q);
      }
    }
  }
  if (o_chunks > 200) {  // so many large differences that sums leave 32 bits
    Rng g(o_seed, 2690 + sizeof(T), 0);
    const size_t n = (sizeof(T) == 8 ? 3000000 : 6000000) + g.below(1000000);
    std::vector<T> x(n), o1(n), o2(n);
    std::vector<int> d(n);
    for (size_t i = 0; i < n; ++i) {
      x[i] = anyval<T>(g); o1[i] = frombits((U)g.u64(), T());
      o2[i] = frombits((U)(bits(o1[i]) + ((U)1 << (sizeof(T) * 8 - 1 - g.below(6)))), T());
      d[i] = ref_diff(o1[i], o2[i]);
    }
    Stats s = stats_of(d);
    fcnComparison1D<T> a("Large", x, o1, o2);
    fcnComparison2D<T> b("Large", x, x, o1, o2);
    made += 2; pairs += 2 * n;
    const std::string KF = K + " large";
    printed26(KF, a, "Large", s);
    printed26(KF + " two inputs", b, "Large", s);
    seen.insert(FMT("%s %d %d large", tn<T>(), (int)log2((double)n), s.max));
    for (int k = 0; k < 4; ++k) {  // no or very few and small differences among so many
      o2 = o1;
      d.assign(n, 0);
      for (int j = 0; j < k; ++j) {
        const size_t i = j == 1 ? n - 1 : g.below(n);
        o2[i] = frombits((U)(bits(o1[i]) ^ (U)(1 + g.below(2))), T());
        d[i] = ref_diff(o1[i], o2[i]);
      }
      s = stats_of(d);
      fcnComparison1D<T> e("Large", x, o1, o2);
      fcnComparison2D<T> f("Large", x, x, o1, o2);
      made += 2; pairs += 2 * n;
      printed26(K + " few", e, "Large", s);
      printed26(K + " few two inputs", f, "Large", s);
      seen.insert(FMT("%s %d %d few", tn<T>(), (int)log2((double)n), k));
    }
  }
  rep_count(std::string("comparisons ") + tn<T>(), made);
  rep_count(std::string("pairs examined ") + tn<T>(), pairs);
}

// ---- C27 ------------------------------------------------------------------------------
static timespec ts_of(__int128 ns) { timespec t; t.tv_sec = (time_t)(ns / 1000000000); t.tv_nsec = (long)(ns % 1000000000); return t; }
static void c27_timer() {
  uint64_t n = 0;
  Cells c;
  Rng g(o_seed, 2700, 0);
  for (uint64_t i = 0; i < o_chunks * 200; ++i) {
    uint64_t base = g.below(4) ? g.below(4000000000ull) * 1000000000ull + g.below(1000000000) : g.below(1000000000), el;
    switch (g.below(7)) {
      case 0: el = g.below(1000); break;
      case 1: el = g.below(1000000000); break;
      case 2: el = g.below(10000000000ull); break;
      case 3: el = g.below(30) * 1000000000ull + g.below(3); break;
      case 4: el = g.below(864000) * 1000000000ull + g.below(1000000000); break;
      case 5: base = base / 1000000000 * 1000000000 + 999999990 + g.below(10); el = 1 + g.below(2000000000); break;
      default: el = 0x7fffffffull + g.below(10) * 0x80000000ull - g.below(5);
    }
    if (i < 200) { base = (i % 20) * 52631578 + 1000000000ull * (i / 20); el = i * 10000001; }
    uint64_t k = 0;
    clock_now = [&](timespec* t) { *t = ts_of(k++ == 0 ? base : base + el); };
    vdth::timer t;
    clock_reads = 0; clock_on = true;
    t.start(); t.stop();
    clock_on = false;
    if (clock_reads < 2) { fprintf(stderr, "the timer does not use the clock that is interposed\n"); exit(3); }
    uint64_t r = t.get_elapsed_time();
    ++n;
    c.hit((uint32_t)((64 - __builtin_clzll(el | 1)) | (base % 1000000000 + el % 1000000000 >= 1000000000) << 7 | (el / 1000000000 ? 1 : 0) << 8));
    if (r != el) bad("timer", FMT("from %llu to %llu ns the timer gives %llu, expected %llu", (unsigned long long)base, (unsigned long long)(base + el), (unsigned long long)r, (unsigned long long)el));
    if (i % 16 == 0) {
      Capture cap; t.print();
      if (cap.str().find(" " + std::to_string(el) + " ") == std::string::npos) bad("timer print", "timer prints '" + cap.str() + "', expected " + std::to_string(el));
    }
    if (i % 8 == 0) {  // a timer is used again
      uint64_t b2 = base + el + g.below(5000000000ull), e2 = g.below(5000000000ull), j = 0;
      clock_now = [&](timespec* q) { *q = ts_of(j++ == 0 ? b2 : b2 + e2); };
      clock_on = true; t.start(); t.stop(); clock_on = false;
      ++n;
      if (t.get_elapsed_time() != e2) bad("timer", FMT("second use: %llu, expected %llu", (unsigned long long)t.get_elapsed_time(), (unsigned long long)e2));
    }
  }
  rep_count("timer readings", n);
  rep_cell("(magnitude, carry) of timer readings", c.count());
}
// Time passes only while the measured function runs, by a chosen amount per repetition.
template <class T> struct Meter {
  std::vector<T> x, y; uint32_t r; std::vector<uint64_t> dt;  // duration of each of the 2r repetitions
  uint64_t calls; __int128 now; bool order_ok; uint32_t n;
  void arm() {
    calls = 0; order_ok = true; n = (uint32_t)x.size();
    clock_now = [this](timespec* t) { *t = ts_of(now); };
  }
  void one(T a, T b, bool two) {
    uint64_t i = calls % n, k = calls / n;
    if (bits(a) != bits(x[i]) || (two && bits(b) != bits(y[i]))) order_ok = false;
    if (k < dt.size()) now += dt[k] / n + (i == 0 ? dt[k] % n : 0);
    ++calls;
  }
  void all(uint32_t m, const T* a, const T* b) {
    if (m != n) order_ok = false;
    uint64_t k = calls / n;
    for (uint32_t i = 0; i < m && i < n; ++i) if (bits(a[i]) != bits(x[i]) || (b && bits(b[i]) != bits(y[i]))) order_ok = false;
    if (k < dt.size()) now += dt[k];
    calls += n;
  }
};
template <class T> static void c27_perf() {
  std::string K = std::string("performance ") + tn<T>();
  uint64_t meas = 0, calls = 0;
  for (uint64_t it = 0; it < o_chunks; ++it) {
    Rng g(o_seed, 2710 + sizeof(T), it);
    Meter<T> m;
    uint32_t n = (uint32_t)(2 + (g.below(3) ? g.below(60) : g.below(5000))), r = (uint32_t)(1 + (g.below(3) ? g.below(8) : g.below(200)));
    if ((uint64_t)n * r > 40000) r = 40000 / n + 1;
    m.r = r;
    for (uint32_t i = 0; i < n; ++i) { m.x.push_back((T)g.uni(-5000, 5000)); m.y.push_back((T)g.uni(-1, 1)); }
    int style = (int)g.below(6);
    for (uint32_t k = 0; k < 2 * r; ++k) {
      uint64_t d;
      switch (style) {
        case 0: d = 1000 + g.below(100); break;
        case 1: d = g.below(1000000000); break;
        case 2: d = 3000000000ull + g.below(4000000000ull); break;
        case 3: d = 5000000000ull + g.below(100000000000ull); break;   // squares exceed 64 bits
        case 4: d = g.below(20) ? 5000 : 50000000; break;
        default: d = 777;
      }
      if (k < r && g.below(2)) d += 123456789;  // warm-up is slow
      m.dt.push_back(d);
    }
    m.now = (__int128)g.below(2000000000ull) * 1000000000 + g.below(1000000000);
    int form = (int)(it % 4);
    const char* fn[] = {"one argument scalar", "two arguments scalar", "one argument array", "two arguments array"};
    std::string KF = K + " " + fn[form];
    m.arm();
    fcnPerformance<T>* p = 0;
    std::string name = anyname(g, "F" + std::to_string(g.below(1000)), false);
    clock_reads = 0; clock_on = true;
    if (form == 0) p = new fcnPerformance<T>(name, m.x, std::function<T(T)>([&](T a) { m.one(a, 0, false); return a; }), r);
    if (form == 1) p = new fcnPerformance<T>(name, m.x, m.y, std::function<T(T, T)>([&](T a, T b) { m.one(a, b, true); return a; }), r);
    if (form == 2) p = new fcnPerformance<T>(name, m.x, std::function<void(uint32_t, T*, T*)>([&](uint32_t k, T* a, T* o) { m.all(k, a, 0); for (uint32_t i = 0; i < k; ++i) o[i] = a[i]; }), r);
    if (form == 3) p = new fcnPerformance<T>(name, m.x, m.y, std::function<void(uint32_t, T*, T*, T*)>([&](uint32_t k, T* a, T* b, T* o) { m.all(k, a, b); for (uint32_t i = 0; i < k; ++i) o[i] = a[i]; }), r);
    clock_on = false;
    if (clock_reads == 0) { fprintf(stderr, "the measurement does not use the clock that is interposed\n"); exit(3); }
    ++meas; calls += m.calls;
    if (m.calls != (uint64_t)2 * r * n) bad(KF + " calls", FMT("%llu evaluations for %u repetitions of %u inputs, expected %llu", (unsigned long long)m.calls, r, n, 2ull * r * n));
    else if (!m.order_ok) bad(KF + " calls", "the function was not called on the inputs in order");
    else {
      __int128 t = 0; long double t2 = 0;
      for (uint32_t k = r; k < 2 * r; ++k) { t += m.dt[k]; t2 += (long double)m.dt[k] * m.dt[k]; }
      long double N = (long double)n * r, avg = (long double)t / N, err = sqrtl((t2 - N * avg * avg) / (N - 1)) / sqrtl(N);
      double rel = sizeof(T) == 8 ? 1e-9 : 1e-6;
      if (!(fabsl(p->getAvg() - avg) <= rel * avg + 1e-30)) bad(KF + " average", FMT("average %.12g, expected %.12g (%u repetitions of %u inputs, times near %llu ns)", (double)p->getAvg(), (double)avg, r, n, (unsigned long long)m.dt.back()));
      if (!(fabsl(p->getAvgErr() - err) <= rel * 100 * err + 1e-30)) bad(KF + " error", FMT("error %.12g, expected %.12g (%u repetitions of %u inputs, times near %llu ns)", (double)p->getAvgErr(), (double)err, r, n, (unsigned long long)m.dt.back()));
      std::ostringstream os;
      double scale = g.below(2) ? 1 : g.uni(1, 1000);
      p->print(os, scale);
      std::vector<std::string> w = words(os.str());
      double a = -1, b = -1, c = -1;
      for (size_t i = 1; i + 1 < w.size(); ++i) {
        if (w[i] == ":") a = atof(w[i + 1].c_str());
        if (w[i] == "+-") b = atof(w[i + 1].c_str());
        if (w[i] == "-->") c = atof(w[i + 1].c_str());
      }
      bool ok = w.size() > 2 && w[1] == name && fabsl(a - avg) < 0.0051 + 1e-9 * avg && fabsl(b - err) < 0.0051 + 1e-7 * err;
      if (scale != 1) ok = ok && fabsl(c - scale / avg) < 0.0051 + 1e-9 * scale / avg;
      if (!ok) bad(KF + " print", FMT("printed '%s' for average %.6g, error %.6g, scale %g", os.str().substr(0, 150).c_str(), (double)avg, (double)err, scale));
    }
    seen.insert(FMT("%s %s %d %d %d", tn<T>(), fn[form], style, (int)log2((double)n), (int)log2((double)r)));
    delete p;
  }
  rep_count(std::string("measurements ") + tn<T>(), meas);
  rep_count(std::string("timed evaluations ") + tn<T>(), calls);
}

// ---- C28 ------------------------------------------------------------------------------
static void c28() {
  uint64_t n = 0, helps = 0, again = 0;
  std::unique_ptr<CmdOptions> before;  // options of the command line before, still alive
  std::map<std::string, std::string> before_val;
  std::vector<std::string> before_names;
  for (uint64_t it = 0; it < o_chunks * 50; ++it) {
    Rng g(o_seed, 2800, it);
    struct Opt { std::string s, l, h; };
    std::vector<Opt> opts;
    std::set<std::string> used;
    used.insert("-h"); used.insert("--help");
    std::unique_ptr<CmdOptions> now(new CmdOptions);
    CmdOptions& cmd = *now;
    const bool many = it % 16 == 5;  // long tables and command lines
    uint64_t no = many ? 20 + g.below(60) : g.below(7);
    for (uint64_t i = 0; i < no; ++i) {
      Opt o;
      o.s = "-" + (g.below(4) ? std::string(1, (char)((g.below(2) ? 'a' : 'A') + g.below(26))) : word(g, 2, 4));
      o.l = "--" + word(g, 2, g.below(20) ? 9 : 300);
      if (g.below(4) == 0 && !opts.empty()) o.l = opts[g.below(opts.size())].l + word(g, 1, 2);  // one long name begins like another
      if (used.count(o.s) || used.count(o.l)) continue;
      used.insert(o.s); used.insert(o.l);
      o.h = FMT("help text %llu%s", (unsigned long long)i, word(g, 8, 12).c_str());
      if (g.below(8) == 0) o.h += " (" + word(g, 1, 40) + ", 50%): " + word(g, 1, 3000);
      opts.push_back(o);
      cmd.addOption(o.s, o.l, o.h);
    }
    // command line and model
    std::vector<std::string> args;
    args.push_back(g.below(2) ? "prog" : "-h");
    uint64_t na = many ? g.below(opts.size() + 1) : g.below(6);
    bool expect = true, help = false, stop = false;
    std::map<std::string, std::string> val;
    std::string cls;
    for (uint64_t i = 0; i < na; ++i) {
      std::string a, v; bool hasv = false; int which = -1;
      switch (many && g.below(40) ? 11 : g.below(12)) {
        case 0: a = g.below(2) ? "-h" : "--help"; which = -2; break;
        case 1: {
          static const char* odd[] = {"", "=", "=x", "-", "--", "x", "-=", "--=v", "==", "- a", "-h-", "--hel", "-hh", "--helpx"};
          a = odd[g.below(14)]; which = -1;
          if (used.count(a)) { --i; continue; }  // happens to be registered
          break;
        }
        case 2: {
          if (opts.empty()) { a = "-q"; break; }
          const Opt& o = opts[g.below(opts.size())];
          switch (g.below(7)) {
            case 5: case 6:  // the other case
              a = g.below(2) ? o.s : o.l;
              for (size_t k = 0; k < a.size(); ++k) if (isalpha((unsigned char)a[k])) a[k] = (char)(a[k] ^ 32);
              break;
            case 0: a = o.s + "x"; break;
            case 1: a = o.l.substr(0, o.l.size() - 1); break;
            case 2: a = o.l + "y"; break;
            case 3: a = "-" + o.l; break;
            default: a = o.s.substr(1);
          }
          if (used.count(a)) { --i; continue; }
          break;
        }
        default:
          if (opts.empty()) { a = "-q"; break; }
          which = (int)g.below(opts.size());
          if (val.count(opts[which].s) && g.below(3)) which = (int)g.below(opts.size());
          for (int k = 0; many && k < 200 && val.count(opts[which].s); ++k) which = (int)g.below(opts.size());
          a = g.below(2) ? opts[which].s : opts[which].l;
      }
      if (which != -1 && g.below(3)) {
        hasv = true;
        static const char* vs[] = {"", "1", "value", "a=b", "=x", "==", "a,b,c", "-x", "--long=3", "with blank", "/path/to/file.txt", "x=", "\"q\"", "two\nlines", "tab\tand end ", " \r", "%s%d%n", "\xc3\xa9\xff", "'", "\\"};
        v = g.below(2) ? vs[g.below(20)] : word(g, 1, 12);
        if (g.below(15) == 0) v = word(g, 30, g.below(40) ? 600 : 70000);
      }
      if (which == -1 && g.below(3) == 0 && a.find('=') == std::string::npos) { hasv = true; v = "val"; }
      args.push_back(hasv ? a + "=" + v : a);
      if (stop) continue;
      if (which == -1) { expect = false; stop = true; cls += "u"; continue; }
      std::string s = which == -2 ? "-h" : opts[which].s;
      if (val.count(s)) { expect = false; stop = true; cls += "t"; continue; }
      val[s] = hasv ? v : "";
      cls += hasv ? (v.empty() ? "e" : "v") : (a.compare(0, 2, "--") ? "s" : "l");
      if (which == -2) help = true;
    }
    std::vector<char*> argv;
    for (size_t i = 0; i < args.size(); ++i) argv.push_back(const_cast<char*>(args[i].c_str()));
    argv.push_back(0);
    std::string out;
    int r;
    { Capture cap; r = cmd.parseCmd((int)args.size(), argv.data()); out = cap.str(); }
    ++n;
    std::string line;
    for (size_t i = 1; i < args.size(); ++i) line += " '" + args[i] + "'";
    seen.insert(cls + (help ? "H" : ""));
    // another object does not change the one before
    if (before) {
      ++again;
      for (size_t i = 0; i < before_names.size(); ++i) {
        const std::string& s = before_names[i];
        const bool set = before_val.count(s);
        if (before->isSet(s) != set || before->getArgument(s) != (set ? before_val[s] : "")) { bad("options of another object", FMT("after another object parsed%s option %s of the one before has changed", line.c_str(), s.c_str())); break; }
      }
      before.reset();
    }
    if ((r != 0) != expect) { bad("parsing result", FMT("parsing%s returned %d, expected %s", line.c_str(), r, expect ? "success" : "failure")); continue; }
    if (!expect) continue;
    for (size_t i = 0; i <= opts.size(); ++i) {
      std::string s = i < opts.size() ? opts[i].s : "-h";
      bool set = val.count(s);
      if (cmd.isSet(s) != set) bad("option set", FMT("after%s option %s is %s", line.c_str(), s.c_str(), set ? "not set" : "set"));
      std::string want = set ? val[s] : "";
      if (cmd.getArgument(s) != want) bad("option value", FMT("after%s option %s has value '%s', expected '%s'", line.c_str(), s.c_str(), cmd.getArgument(s).c_str(), want.c_str()));
    }
    auto shows = [&](const std::string& text, const Opt& o) { return text.find(o.s) != std::string::npos && text.find(o.l) != std::string::npos && text.find(o.h) != std::string::npos; };
    if (help) {
      ++helps;
      for (size_t i = 0; i < opts.size(); ++i) if (!shows(out, opts[i])) bad("help", "help does not show option " + opts[i].s + " " + opts[i].l);
      if (out.find("--help") == std::string::npos) bad("help", "help does not show --help");
    } else {
      for (size_t i = 0; i < opts.size(); ++i) if (out.find(opts[i].h) != std::string::npos) bad("help", "help printed though not asked for:" + line);
    }
    if (!opts.empty()) {
      const Opt& o = opts[g.below(opts.size())];
      std::string t;
      { Capture cap; cmd.printHelp(g.below(2) ? o.s : o.l); t = cap.str(); }
      ++helps;
      if (!shows(t, o) || t.find("Unknown") != std::string::npos) bad("help for one option", "help for " + o.s + " is '" + t.substr(0, 150) + "'");
      for (size_t i = 0; i < opts.size(); ++i) if (opts[i].s != o.s && t.find(opts[i].h) != std::string::npos) bad("help for one option", "help for " + o.s + " shows " + opts[i].s);
    }
    if (it % 4 == 0) {
      std::string t;
      { Capture cap; cmd.printHelp(g.below(2) ? "-h" : "--help"); t = cap.str(); }
      ++helps;
      if (t.find("-h") == std::string::npos || t.find("--help") == std::string::npos) bad("help for one option", "help for -h is '" + t.substr(0, 150) + "'");
      for (size_t i = 0; i < opts.size(); ++i) if (t.find(opts[i].h) != std::string::npos) bad("help for one option", "help for -h shows " + opts[i].s);
    }
    before_names.assign(1, "-h");
    for (size_t i = 0; i < opts.size(); ++i) before_names.push_back(opts[i].s);
    before_val = val;
    before = std::move(now);
  }
  rep_count("command lines", n);
  rep_count("earlier objects looked at again", again);
  rep_count("help texts", helps);
}

// ---- C29 ------------------------------------------------------------------------------
template <class T> struct Dir1 { const char* name; T (*s)(T); void (*v)(uint32_t, const T*, T*); int pool; };  // 0 symmetric, 1 positive, 2 one, 3 exp
static double r_exp(double x) { return ::exp(x); } static double r_log(double x) { return ::log(x); } static double r_sin(double x) { return ::sin(x); }
static double r_cos(double x) { return ::cos(x); } static double r_tan(double x) { return ::tan(x); } static double r_tanh(double x) { return ::tanh(x); }
static double r_asin(double x) { return ::asin(x); } static double r_acos(double x) { return ::acos(x); } static double r_atan(double x) { return ::atan(x); }
static float r_expf(float x) { return ::expf(x); } static float r_logf(float x) { return ::logf(x); } static float r_sinf(float x) { return ::sinf(x); }
static float r_cosf(float x) { return ::cosf(x); } static float r_tanf(float x) { return ::tanf(x); } static float r_tanhf(float x) { return ::tanhf(x); }
static float r_asinf(float x) { return ::asinf(x); } static float r_acosf(float x) { return ::acosf(x); } static float r_atanf(float x) { return ::atanf(x); }
static double r_isqrt(double x) { return 1. / std::sqrt(x); } static float r_isqrtf(float x) { return 1.f / std::sqrt(x); }
static double r_inv(double x) { return 1. / x; } static float r_invf(float x) { return 1.f / x; }
static double r_id(double x) { return x; } static float r_idf(float x) { return x; }
#define FOR_ALL(X, S) \
  X("Identity", r_id##S, 0) X("Exp", r_exp##S, 3) X("Log", r_log##S, 1) X("Sin", r_sin##S, 0) X("Cos", r_cos##S, 0) X("Tan", r_tan##S, 0) X("Tanh", r_tanh##S, 0) \
  X("Asin", r_asin##S, 2) X("Acos", r_acos##S, 2) X("Atan", r_atan##S, 0) X("Isqrt", r_isqrt##S, 1) X("Inverse", r_inv##S, 0) \
  X("Fast_Exp", vdt::fast_exp##S, 3) X("Fast_Log", vdt::fast_log##S, 1) X("Fast_Sin", vdt::fast_sin##S, 0) X("Fast_Cos", vdt::fast_cos##S, 0) X("Fast_Tan", vdt::fast_tan##S, 0) \
  X("Fast_Tanh", vdt::fast_tanh##S, 0) X("Fast_Asin", vdt::fast_asin##S, 2) X("Fast_Acos", vdt::fast_acos##S, 2) X("Fast_Atan", vdt::fast_atan##S, 0) X("Fast_Isqrt", vdt::fast_isqrt##S, 1) \
  X("Fast_Inv", vdt::fast_inv##S, 0) X("Fast_Apr_Isqrt", vdt::fast_approx_isqrt##S, 1) X("Fast_Apr_Inv", vdt::fast_approx_inv##S, 0)
template <class T> struct Ent { const char* name; T (*f)(T); int pool; };
#define ENT(N, F, P) {N, F, P},
static const Ent<double> entd[] = {FOR_ALL(ENT, )};
static const Ent<float> entf[] = {FOR_ALL(ENT, f)};
static const int NENT = sizeof(entd) / sizeof(entd[0]);
static const Ent<double>* ents(double) { return entd; }
static const Ent<float>* ents(float) { return entf; }
template <class T> static bool sameval(T a, T b) { return bits(a) == bits(b) || (a != a && b != b); }

template <class T> static void c29() {
  std::string S = sizeof(T) == 8 ? "" : "f";
  uint64_t n_ent = 0, n_val = 0;
  const Ent<T>* E = ents(T());
  for (uint64_t it = 0; it < o_chunks; ++it) {
    Rng g(o_seed, 2900 + sizeof(T), it);
    uint64_t n = 20 + g.below(1000);
    Capture* cap = new Capture;
    int32_t sd = (int32_t)g.below(100000);
    randomPool1D<T> sym((T)-5000, (T)5000, n, sd), pos((T).0001, (T)5000, n, sd + 1), one((T)-1, (T)1, n, sd + 2), ex((T)(sizeof(T) == 8 ? -705 : -85), (T)(sizeof(T) == 8 ? 705 : 85), n, sd + 3);
    randomPool2D<T> two((T)-1, (T)-1, (T)1, (T)1, n, sd + 4);
    std::vector<genfpfcn_tuple<T> > ts; std::vector<genfpfcnv_tuple<T> > tv;
    std::vector<genfpfcn2D_tuple<T> > t2; std::vector<genfpfcn2Dv_tuple<T> > t2v;
    getFunctionTuples(&ts, sym, pos, one, ex); getFunctionTuplesvect(&tv, sym, pos, one, ex);
    getFunctionTuples(&t2, two); getFunctionTuplesvect(&t2v, two);
    if (it == 0) getFunctionTuples(&ts, sym, pos, one, ex);  // filling again replaces
    delete cap;
    const std::vector<T>* pools[] = {&sym.getNumbers(), &pos.getNumbers(), &one.getNumbers(), &ex.getNumbers()};
    const char* pn[] = {"symmetric", "positive", "[-1, 1]", "exponential"};
    for (int form = 0; form < 2; ++form) {
      std::string suf = S + (form ? "v" : "");
      size_t cnt = form ? tv.size() : ts.size();
      std::set<std::string> names;
      for (size_t i = 0; i < cnt; ++i) names.insert(form ? std::get<0>(tv[i]) : std::get<0>(ts[i]));
      if (cnt != (size_t)NENT || names.size() != cnt) bad("table size " + suf, FMT("table '%s' has %zu entries, %zu names, expected %d", suf.c_str(), cnt, names.size(), NENT));
      for (int k = 0; k < NENT; ++k) {
        std::string nm = E[k].name + suf;
        size_t i = 0;
        while (i < cnt && (form ? std::get<0>(tv[i]) : std::get<0>(ts[i])) != nm) ++i;
        ++n_ent;
        if (i == cnt) { bad("table entry " + nm, "no entry " + nm); continue; }
        const std::vector<T>& p = form ? std::get<2>(tv[i]) : std::get<2>(ts[i]);
        if (!eqv(p, *pools[E[k].pool])) bad("pool of " + nm, nm + FMT(" is not bound to the %s pool", pn[E[k].pool]));
        // evaluated on its pool, and elsewhere in its domain
        std::vector<T> x = *pools[E[k].pool], o(x.size());
        for (int j = 0; j < 50; ++j) x[g.below(x.size())] = E[k].pool == 1 ? (T)g.uni(0.001, 2) : (T)g.uni(-0.999, 0.999);
        if (form) std::get<1>(tv[i])((uint32_t)x.size(), x.data(), o.data());
        else for (size_t j = 0; j < x.size(); ++j) o[j] = std::get<1>(ts[i])(x[j]);
        n_val += x.size();
        for (size_t j = 0; j < x.size(); ++j) {
          T r = E[k].f(x[j]);
          if (!sameval<T>(r, o[j])) { bad("function of " + nm, FMT("%s(%.17g) in the table gives %.17g, the function %.17g", nm.c_str(), (double)x[j], (double)o[j], (double)r)); break; }
        }
        if (it == 0) seen.insert(nm);
      }
      // two arguments
      const char* n2[] = {"Identity2D", "Atan2", "Fast_Atan2"};
      size_t c2 = form ? t2v.size() : t2.size();
      if (c2 != 3) bad("table size 2D" + suf, FMT("two-argument table '%s' has %zu entries", suf.c_str(), c2));
      for (int k = 0; k < 3; ++k) {
        std::string nm = n2[k] + suf;
        size_t i = 0;
        while (i < c2 && (form ? std::get<0>(t2v[i]) : std::get<0>(t2[i])) != nm) ++i;
        ++n_ent;
        if (i == c2) { bad("table entry " + nm, "no entry " + nm); continue; }
        const std::vector<T>&px = form ? std::get<2>(t2v[i]) : std::get<2>(t2[i]), &py = form ? std::get<3>(t2v[i]) : std::get<3>(t2[i]);
        if (!eqv(px, two.getNumbersX()) || !eqv(py, two.getNumbersY())) bad("pool of " + nm, nm + " is not bound to the two-dimensional pool");
        std::vector<T> x = two.getNumbersX(), y = two.getNumbersY(), o(x.size());
        if (form) std::get<1>(t2v[i])((uint32_t)x.size(), x.data(), y.data(), o.data());
        else for (size_t j = 0; j < x.size(); ++j) o[j] = std::get<1>(t2[i])(x[j], y[j]);
        n_val += x.size();
        for (size_t j = 0; j < x.size(); ++j) {
          T r = k == 0 ? (sizeof(T) == 8 ? (T)vdt::identity2D(x[j], y[j]) : (T)vdt::identity2Df((float)x[j], (float)y[j]))
                : k == 1 ? (sizeof(T) == 8 ? (T)::atan2((double)x[j], (double)y[j]) : (T)::atan2f((float)x[j], (float)y[j]))
                         : (sizeof(T) == 8 ? (T)vdt::fast_atan2(x[j], y[j]) : (T)vdt::fast_atan2f((float)x[j], (float)y[j]));
          if (!sameval<T>(r, o[j])) { bad("function of " + nm, FMT("%s(%.17g, %.17g) in the table gives %.17g, the function %.17g", nm.c_str(), (double)x[j], (double)y[j], (double)o[j], (double)r)); break; }
        }
        if (it == 0) seen.insert(nm);
      }
    }
  }
  if (sizeof(T) == 8) {
    std::vector<std::string> nm;
    { Capture cap; nm.push_back("stale"); getFunctionBasicNames(&nm); }
    std::set<std::string> got(nm.begin(), nm.end()), want;
    for (int k = 1; k < 12; ++k) want.insert(entd[k].name);
    ++n_ent;
    if (got != want || nm.size() != 11) { std::string s; for (size_t i = 0; i < nm.size(); ++i) s += " " + nm[i]; bad("basic names", "basic names are" + s); }
  }
  rep_count(std::string("table entries ") + tn<T>(), n_ent);
  rep_count(std::string("table evaluations ") + tn<T>(), n_val);
}

// ---- readers on damaged files (C16) -----------------------------------------------------
template <class T> static void damaged() {
  uint64_t n = 0;
  for (uint64_t it = 0; it < o_chunks; ++it) {
    Rng g(o_seed, 1600 + sizeof(T), it);
    uint64_t k = 1 + g.below(12);
    std::vector<T> x(k), y(k), a(k), b(k);
    for (size_t i = 0; i < k; ++i) { x[i] = anyval<T>(g); y[i] = anyval<T>(g); a[i] = anyval<T>(g); b[i] = anyval<T>(g); }
    Capture cap;
    std::string p[6];
    for (int i = 0; i < 6; ++i) p[i] = file(FMT("d%d.txt", i).c_str());
    { randomPool1D<T> r((T)-1, (T)1, k, 3); r.writeFile(p[0]); randomPool2D<T> q((T)-1, (T)-1, (T)1, (T)1, k, 3); q.writeFile(p[1]); }
    { fcnResponse1D<T> r("f", x, std::function<T(T)>(scramble<T>)); r.writeFile(p[2]); fcnResponse2D<T> q("g", x, y, std::function<T(T, T)>(scramble2<T>)); q.writeFile(p[3]); }
    { fcnComparison1D<T> r("c", x, a, b); r.writeFile(p[4]); fcnComparison2D<T> q("c2", x, y, a, b); q.writeFile(p[5]); }
    for (int i = 0; i < 6; ++i) {
      std::string t = slurp(p[i]);
      int how = (int)g.below(6);
      seen.insert(FMT("%s file %d damage %d", tn<T>(), i, how));
      switch (how) {
        case 0: t = ""; break;
        case 1: t = t.substr(0, g.below(t.size() + 1)); break;
        case 2: { size_t q = 0; uint64_t l = g.below(8); for (uint64_t j = 0; j < l && q != std::string::npos; ++j) { q = t.find('\n', q); if (q != std::string::npos) ++q; } t = t.substr(0, q == std::string::npos ? t.size() : q); break; }
        case 3: if (!t.empty()) t[g.below(t.size())] = (char)(32 + g.below(90)); break;
        case 4: t += " 0x"; break;
        default: break;
      }
      std::ofstream f(p[i].c_str(), std::ios::trunc); f << t; f.close();
      if (g.below(20) == 0) unlink(p[i].c_str());
    }
    std::string o = file("out.txt");
    { randomPool1D<T> r(p[0]); r.print(); r.writeFile(o); ++n; }
    { randomPool2D<T> r(p[1]); ++n; if (r.getNumbersX().size() == r.getNumbersY().size()) r.print(); r.writeFile(o); }
    { fcnResponse1D<T> r(p[2]); r.print(); r.writeFile(o); ++n; }
    { fcnResponse2D<T> r(p[3]); r.print(); r.writeFile(o); ++n; }
    { fcnComparison1D<T> r(p[4]); r.print(); r.printStats(true); (void)r.hasDifference(); r.writeFile(o); ++n; }
    { fcnComparison2D<T> r(p[5]); r.print(); r.printStats(true); (void)r.hasDifference(); r.writeFile(o); ++n; }
  }
  rep_count(std::string("objects read from damaged files ") + tn<T>(), n);
}

// ---- C39: what is printed -----------------------------------------------------------------
template <class T> static bool near(const std::string& w, T v, double rel) {  // a decimal number with some digits
  char* e;
  double r = strtod(w.c_str(), &e);
  if (w.empty() || *e) return false;
  if (v != v) return r != r;
  if (v - v != 0 || r - r != 0) return (double)v == r || (std::fabs((double)v) > 0.9999 * (double)std::numeric_limits<T>::max() && r - r != 0);
  return std::fabs(r - (double)v) <= rel * std::fabs((double)v) + (double)std::numeric_limits<T>::denorm_min();
}
// Splits "PREFIX a, b SUFFIX" into numbers.
static bool between(const std::string& s, const std::string& pre, const std::string& post, std::vector<std::string>& w) {
  if (s.size() < pre.size() + post.size() || s.compare(0, pre.size(), pre) || s.compare(s.size() - post.size(), post.size(), post)) return false;
  std::string in = s.substr(pre.size(), s.size() - pre.size() - post.size());
  for (size_t k = 0; k < in.size(); ++k) if (in[k] == ',') in[k] = ' ';
  w = words(in);
  return true;
}
template <class T> static bool difference39(const std::vector<std::string>& l, size_t at, T a, T b, std::string& why) {
  std::vector<std::string> w;
  why = at < l.size() ? l[at] : "end of output";
  if (at + 2 >= l.size()) return false;
  if (!between(l[at], "Different bit between ", "", w) || w.size() != 5 || w[1] != "and" || w[3] != "is") return false;
  if (!near(w[0], a, 5.1e-10) || !near(w[2], b, 5.1e-10) || w[4] != std::to_string(ref_diff(a, b))) return false;
  why = l[at + 1] + " / " + l[at + 2];
  return l[at + 1] == ref_bits(a) && l[at + 2] == ref_bits(b) && (at + 3 >= l.size() || l[at + 3].empty());
}
template <class T> static void c39() {
  const std::string K = tn<T>();
  const double rel = sizeof(T) == 8 ? 1e-14 : 1e-5;  // 15 and 6 digits
  uint64_t n_pool = 0, n_resp = 0, n_fun = 0;
  for (uint64_t c = 0; c < o_chunks; ++c) {
    Rng g(o_seed, 3900 + sizeof(T), c);
    const uint64_t n = large_size(c, g, c < 4 ? c + 1 : 1 + g.below(c % 10 == 0 ? 300 : 30));
    std::vector<T> x(n), y(n);
    for (uint64_t i = 0; i < n; ++i) { x[i] = anyval<T>(g); y[i] = anyval<T>(g); }
    std::string name = anyname(g, word(g, 1, 12)), u, why;
    std::vector<std::string> w;
    // pools
    {
      T lo, hi; limits<T>(g, lo, hi);
      randomPool1D<T> p(lo, hi, n, (int32_t)g.below(1000));
      { Capture cap; p.print(); u = cap.str(); }
      std::vector<std::string> l = lines_of(u);
      bool ok = l.size() == n + 1;
      for (uint64_t i = 0; ok && i < n; ++i) { ok = between(l[i + 1], FMT("%llu/%llu - ", (unsigned long long)i, (unsigned long long)n), "", w) && w.size() == 1 && near(w[0], p.getNumbers()[i], rel); ++n_pool; if (!ok) why = l[i + 1]; }
      if (!ok) bad("pool print " + K, FMT("%zu lines for %llu numbers, '%s'", l.size(), (unsigned long long)n, why.c_str()));
      randomPool_old<T> e(lo, hi, n, (uint32_t)g.below(1000));
      { Capture cap; e.print(); u = cap.str(); }
      l = lines_of(u);
      ok = l.size() == n + 1;
      for (uint64_t i = 0; ok && i < n; ++i) {  // the older class counts from 1
        ok = (between(l[i + 1], FMT("%llu/%llu - ", (unsigned long long)i + 1, (unsigned long long)n), "", w) || between(l[i + 1], FMT("%llu/%llu - ", (unsigned long long)i, (unsigned long long)n), "", w)) && w.size() == 1 && near(w[0], e.getNumbers()[i], rel);
        ++n_pool;
        if (!ok) why = l[i + 1];
      }
      if (!ok) bad("older pool print " + K, FMT("%zu lines for %llu numbers, '%s'", l.size(), (unsigned long long)n, why.c_str()));
      T lo2, hi2; limits<T>(g, lo2, hi2);
      randomPool2D<T> q(lo, lo2, hi, hi2, n, (int32_t)g.below(1000));
      { Capture cap; q.print(); u = cap.str(); }
      l = lines_of(u);
      ok = l.size() == n + 1;
      for (uint64_t i = 0; ok && i < n; ++i) { ok = between(l[i + 1], FMT("%llu/%llu - ", (unsigned long long)i, (unsigned long long)n), "", w) && w.size() == 2 && near(w[0], q.getNumbersX()[i], rel) && near(w[1], q.getNumbersY()[i], rel); ++n_pool; if (!ok) why = l[i + 1]; }
      if (!ok) bad("pool of pairs print " + K, FMT("%zu lines for %llu numbers, '%s'", l.size(), (unsigned long long)n, why.c_str()));
    }
    // responses
    {
      for (int older = 0; older < 2; ++older) {
        if (older) { fcnResponse_old<T> r(name, x, (std::function<T(T)>)scramble<T>); Capture cap; r.print(); u = cap.str(); }
        else { fcnResponse1D<T> r(name, x, (std::function<T(T)>)scramble<T>); Capture cap; r.print(); u = cap.str(); }
        std::vector<std::string> l = lines_of(u);
        bool ok = l.size() == n + 1;
        for (uint64_t i = 0; ok && i < n; ++i) { ok = between(l[i + 1], FMT("%llu/%llu %s(", (unsigned long long)i, (unsigned long long)n, name.c_str()), "", w) && w.size() == 3 && !w[0].empty() && w[0][w[0].size() - 1] == ')' && near(w[0].substr(0, w[0].size() - 1), x[i], rel) && w[1] == "=" && near(w[2], scramble<T>(x[i]), rel); ++n_resp; if (!ok) why = l[i + 1]; }
        if (!ok) bad((older ? "older response print " : "response print ") + K, FMT("%zu lines for %llu rows, '%s'", l.size(), (unsigned long long)n, why.c_str()));
      }
      fcnResponse2D<T> r2(name, x, y, (std::function<T(T, T)>)scramble2<T>);
      { Capture cap; r2.print(); u = cap.str(); }
      std::vector<std::string> l = lines_of(u);
      bool ok = l.size() == n + 1;
      for (uint64_t i = 0; ok && i < n; ++i) { ok = between(l[i + 1], FMT("%llu/%llu %s(", (unsigned long long)i, (unsigned long long)n, name.c_str()), "", w) && w.size() == 5 && near(w[0], x[i], rel) && near(w[1], y[i], rel) && w[2] == ")" && w[3] == "=" && near(w[4], scramble2<T>(x[i], y[i]), rel); ++n_resp; if (!ok) why = l[i + 1]; }
      if (!ok) bad("response of pairs print " + K, FMT("%zu lines for %llu rows, '%s'", l.size(), (unsigned long long)n, why.c_str()));
    }
    // differences of functions
    std::vector<T> cx, cy;  // recorded arguments
    std::function<T(T)> f1 = [&](T a) { cx.push_back(a); return scramble<T>(a); };
    std::function<T(T)> f2 = [&](T a) { cy.push_back(a); return (T)(bits(a) & 1 ? scramble<T>(a) : scramble<T>(scramble<T>(a))); };
    std::function<T(T, T)> h1 = [&](T a, T b) { return scramble2<T>(a, b); };
    std::function<T(T, T)> h2 = [&](T a, T b) { return scramble2<T>(b, a); };
    std::function<void(uint32_t, T*, T*)> v1 = [&](uint32_t m, T* a, T* o) { for (uint32_t i = 0; i < m; ++i) o[i] = f1(a[i]); };
    std::function<void(uint32_t, T*, T*)> v2 = [&](uint32_t m, T* a, T* o) { for (uint32_t i = 0; i < m; ++i) o[i] = f2(a[i]); };
    std::function<void(uint32_t, T*, T*, T*)> k1 = [&](uint32_t m, T* a, T* b, T* o) { for (uint32_t i = 0; i < m; ++i) o[i] = h1(a[i], b[i]); };
    std::function<void(uint32_t, T*, T*, T*)> k2 = [&](uint32_t m, T* a, T* b, T* o) { for (uint32_t i = 0; i < m; ++i) o[i] = h2(a[i], b[i]); };
    for (int form = 0; form < 6; ++form) {
      cx.clear(); cy.clear();
      uint64_t m = form == 0 || form == 3 ? 1 : n;
      const bool two = form >= 3, list = form == 2 || form == 5;
      {
        Capture cap;
        if (form == 0) vdth::printFuncDiff(name, f1, f2, x[0]);
        else if (form == 1) vdth::printFuncDiff(name, f1, f2, x.data(), (uint32_t)n);
        else if (form == 2) vdth::printFuncDiff(name, v1, v2, x.data(), (uint32_t)n);
        else if (form == 3) vdth::printFuncDiff(name, h1, h2, x[0], y[0]);
        else if (form == 4) vdth::printFuncDiff(name, h1, h2, x.data(), y.data(), (uint32_t)n);
        else vdth::printFuncDiff(name, k1, k2, x.data(), y.data(), (uint32_t)n);
        u = cap.str();
      }
      std::vector<std::string> l = lines_of(u);
      size_t at = 0;
      bool ok = true;
      if (list) { ok = !l.empty() && l[0] == "Function " + name; at = 1; why = "first line"; }
      for (uint64_t i = 0; ok && i < m; ++i) {
        ++n_fun;
        why = at < l.size() ? l[at] : "end of output";
        const std::string pre = list ? std::string("Calculated in ") + (two ? "(" : "") : "Function " + name + "(";
        ok = at < l.size() && between(l[at], pre, list && !two ? "" : ")", w) && w.size() == (two ? 2u : 1u) && near(w[0], x[i], 1e-5) && (!two || near(w[1], y[i], 1e-5));
        T a = two ? scramble2<T>(x[i], y[i]) : scramble<T>(x[i]);
        T b = two ? scramble2<T>(y[i], x[i]) : bits(x[i]) & 1 ? scramble<T>(x[i]) : scramble<T>(scramble<T>(x[i]));
        ok = ok && difference39<T>(l, at + 1, a, b, why);
        at += 5;
      }
      if (ok && !(at == l.size() || at == l.size() + 1)) { ok = false; why = FMT("%zu lines, expected %zu", l.size(), at); }
      static const char* forms[] = {"one number", "numbers", "array", "one pair", "pairs", "array of pairs"};
      if (!ok) bad(FMT("difference of functions, %s %s", forms[form], K.c_str()), FMT("%s(%s...): %s", name.c_str(), hexb(x[0]).c_str(), why.substr(0, 300).c_str()));
      if (!two) {
        bool same = cx.size() == m && cy.size() == m;
        for (uint64_t i = 0; same && i < m; ++i) same = bits(cx[i]) == bits(x[i]) && bits(cy[i]) == bits(x[i]);
        if (!same) bad(FMT("calls for differences, %s %s", forms[form], K.c_str()), FMT("%zu and %zu calls for %llu numbers, or other arguments", cx.size(), cy.size(), (unsigned long long)m));
      }
      seen.insert(FMT("%s %s size %d", forms[form], K.c_str(), (int)std::min<uint64_t>(m, 20)));
    }
    if (c < 2) rep_sample(FMT("last lines printed for %llu numbers: ", (unsigned long long)n) + u.substr(u.size() > 200 ? u.size() - 200 : 0));
  }
  rep_count("printed pool rows " + K, n_pool);
  rep_count("printed response rows " + K, n_resp);
  rep_count("printed differences of functions " + K, n_fun);
}

int main(int argc, char** argv) {
  parse_opts(argc, argv);
  if (o_mode == "C22") { c22<double>(); c22<float>(); }
  else if (o_mode == "C23") c23();
  else if (o_mode == "C24") {
    uint64_t h = c24<float>(c24<double>(14695981039346656037ull));
    printf("POOLHASH %016llx\n", (unsigned long long)h);
  }
  else if (o_mode == "C24large") { large24<double>(); large24<float>(); }
  else if (o_mode == "C25") { c25<double>(); c25<float>(); }
  else if (o_mode == "C26") { c26<double>(); c26<float>(); }
  else if (o_mode == "C27") { c27_timer(); c27_perf<double>(); c27_perf<float>(); }
  else if (o_mode == "C28") c28();
  else if (o_mode == "C29") { c29<double>(); c29<float>(); }
  else if (o_mode == "C39") { c39<double>(); c39<float>(); }
  else if (o_mode == "damaged") { damaged<double>(); damaged<float>(); }
  else return 3;
  if (!seen.empty()) {
    rep_cell("distinct situations", seen.size());
    rep_sample("for instance: " + *seen.begin() + "; " + *seen.rbegin());
  }
  rep_done();
  return 0;
}
