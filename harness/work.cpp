// Workload for counting executed instructions. The counts are made by callgrind; each part
// of the workload is announced by its label.
#include "opts.h"
#include <valgrind/callgrind.h>

static volatile double sink;
static uint64_t parts = 0;
static void count_on() { CALLGRIND_ZERO_STATS; CALLGRIND_START_INSTRUMENTATION; CALLGRIND_TOGGLE_COLLECT; }
static void count_off(const std::string& label) {
  CALLGRIND_TOGGLE_COLLECT;
  CALLGRIND_DUMP_STATS_AT(label.c_str());
  ++parts;
}
template <class T> static std::vector<T> specials(int id, Rng& g) {
  typedef std::numeric_limits<T> L;
  std::vector<T> v = {(T)0, L::infinity(), L::quiet_NaN(), L::denorm_min(), L::min(), L::max(), (T)1, (T)2, (T).5, (T)1e9, (T)12345.678,
                      (T)1e15, (T)1e20, (T)1e37, step((T)1, 1), step((T)1, -1), step(L::min(), -1), L::epsilon(), (T)700, (T)100, (T)3e-39, (T)4294967296., (T)1e10};
  if (sizeof(T) == 8) { v.push_back((T)1e100); v.push_back((T)1e300); v.push_back((T)1e-300); v.push_back((T)1e-310); v.push_back((T)1.8446744073709552e19); }
  size_t n = v.size();
  for (size_t i = 0; i < n; ++i) v.push_back(-v[i]);
  Source<T> s; s.init(id, o_lits);
  for (uint64_t i = 0; i < o_chunks; ++i) v.push_back(s.critical(g));
  return v;
}
template <class T> static T any(Source<T>& s, Rng& g) {  // any argument, not only of the domain
  if (g.below(3)) return s.one(g);
  return frombits(sizeof(T) == 8 ? g.u64() : g.u64() & 0xffffffffu, T());
}
template <class T> static void unary(const Unary& u) {
  int id = id_of(u.name);
  const std::string nm = std::string(u.name) + Sel<T>::suf();
  Rng g(o_seed, 3600 + id, sizeof(T));
  auto f = Sel<T>::s(u); auto a = Sel<T>::v(u);
  std::vector<T> sp = specials<T>(id, g);
  for (size_t i = 0; i < sp.size(); ++i) {
    std::string l = FMT("S %s 1 %.17g", nm.c_str(), (double)sp[i]);
    T x = sp[i];
    count_on(); T r = f(x); count_off(l);
    sink = r;
  }
  Source<T> s; s.init(id, o_lits);
  for (int k = 0; k < 12; ++k) {
    std::vector<T> x(64);
    for (size_t i = 0; i < 64; ++i) x[i] = any(s, g);
    std::string l = FMT("S %s 64 block-%d", nm.c_str(), k);
    T r = 0;
    count_on(); for (int i = 0; i < 64; ++i) { T v = f(x[i]); if (v > 0) r = v; } count_off(l);
    sink = r;
  }
  const uint32_t sizes[] = {0, 1, 2, 3, 7, 16, 33, 64, 250, 1000, 3000};
  for (int k = 0; k < 22; ++k) {
    uint32_t n = k < 11 ? sizes[k] : 1 + (uint32_t)g.below(600);
    std::vector<T> x(n + 1), o(n + 1);
    T c = sp[g.below(sp.size())];
    for (uint32_t i = 0; i < n; ++i) x[i] = k & 1 ? any(s, g) : k % 4 == 0 ? c : sp[g.below(sp.size())];
    std::string l = FMT("A %sv %u first-%.17g", nm.c_str(), n, (double)x[0]);
    count_on(); a(n, x.data(), o.data()); count_off(l);
  }
}
template <class T> static void binary(const Binary& b) {
  const std::string nm = std::string(b.name) + Sel<T>::suf();
  Rng g(o_seed, 3690, sizeof(T));
  auto f = Sel<T>::s(b); auto a = Sel<T>::v(b);
  std::vector<T> sp = specials<T>(NIDS, g);
  for (size_t i = 0; i < 3 * sp.size(); ++i) {
    T y = sp[g.below(sp.size())], x = sp[g.below(sp.size())];
    std::string l = FMT("S %s 1 %.17g,%.17g", nm.c_str(), (double)y, (double)x);
    count_on(); T r = f(y, x); count_off(l);
    sink = r;
  }
  for (int k = 0; k < 20; ++k) {
    uint32_t n = (uint32_t)g.below(500);
    std::vector<T> y(n + 1), x(n + 1), o(n + 1);
    for (uint32_t i = 0; i < n; ++i) { y[i] = sp[g.below(sp.size())]; x[i] = sp[g.below(sp.size())]; }
    std::string l = FMT("A %sv %u pair-%d", nm.c_str(), n, k);
    count_on(); a(n, y.data(), x.data(), o.data()); count_off(l);
  }
}
int main(int argc, char** argv) {
  parse_opts(argc, argv);
  for (int i = 0; i < vdt_n_unary; ++i) if (is_fast(vdt_unary[i].name)) { unary<double>(vdt_unary[i]); unary<float>(vdt_unary[i]); }
  binary<double>(vdt_binary[0]); binary<float>(vdt_binary[0]);
  Rng g(o_seed, 3699, 0);
  std::vector<double> sd = specials<double>(SIN, g);
  std::vector<float> sf = specials<float>(SIN, g);
  for (size_t i = 0; i < sd.size(); ++i) {
    double s, c; std::string l = FMT("S fast_sincos 1 %.17g", sd[i]);
    count_on(); vdt_sincos_d(sd[i], s, c); count_off(l); sink = s;
  }
  for (size_t i = 0; i < sf.size(); ++i) {
    float s, c; std::string l = FMT("S fast_sincosf 1 %.9g", (double)sf[i]);
    count_on(); vdt_sincos_f(sf[i], s, c); count_off(l); sink = s;
  }
  rep_count("labelled parts of the workload", parts);
  rep_done();
  return 0;
}
