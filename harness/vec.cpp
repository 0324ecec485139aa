// Workload for counting the instructions executed by array functions and by loops of a user.
// The counts are made by callgrind; each part of the workload is announced by its label.
#include "opts.h"
#include "vec_loops.h"
#include <valgrind/callgrind.h>

static uint64_t parts = 0;
static void count_on() { CALLGRIND_ZERO_STATS; CALLGRIND_START_INSTRUMENTATION; CALLGRIND_TOGGLE_COLLECT; }
static void count_off(const std::string& label) {
  CALLGRIND_TOGGLE_COLLECT;
  CALLGRIND_DUMP_STATS_AT(label.c_str());
  ++parts;
}
template <class T> static T any(const Source<T>& s, Rng& g, int style) {
  if (style == 0) { const Interval& v = s.iv[g.below(s.iv.size())]; return (T)g.uni(v.lo, v.hi); }
  if (style == 1) return s.one(g);
  return g.below(4) ? s.critical(g) : g.below(2) ? special_value<T>(g) : frombits((typename Fmt<T>::U)g.u64(), T());
}
static bool light(const std::string& n) { return n.find("inv") != std::string::npos || n.find("isqrt") != std::string::npos; }
static bool branches(const std::string& n) { return n.find("asin") != std::string::npos || n.find("acos") != std::string::npos; }
static std::string label(const std::string& name, const char* shape, bool dbl, uint32_t n, int style) {
  static const char* styles[] = {"uniform", "stratified", "special"};
  return FMT("V %s %s%s %u %s-%s", name.c_str(), light(name) ? "light" : branches(name) ? "branches" : "full", dbl ? "-double" : "-float", n, shape, styles[style]);
}
template <class T> static void arrays(Rng& g, uint32_t n) {
  std::vector<T> x(n), y(n), o(n), p(n);
  for (int i = 0; i < vdt_n_unary; ++i) {
    if (!is_fast(vdt_unary[i].name)) continue;
    Source<T> s; s.init(id_of(vdt_unary[i].name), o_lits);
    int style = (int)g.below(3);
    for (uint32_t k = 0; k < n; ++k) x[k] = any(s, g, style);
    std::string l = label(vdt_unary[i].name, "array", sizeof(T) == 8, n, style);
    auto a = Sel<T>::v(vdt_unary[i]);
    count_on(); a(n, x.data(), o.data()); count_off(l);
  }
  Source<T> s; s.init(NIDS, o_lits);
  for (int i = 0; i < vdt_n_binary; ++i) {
    if (!is_fast(vdt_binary[i].name)) continue;
    int style = (int)g.below(3);
    for (uint32_t k = 0; k < n; ++k) { x[k] = any(s, g, style); y[k] = any(s, g, style); }
    std::string l = label(vdt_binary[i].name, "array", sizeof(T) == 8, n, style);
    auto a = Sel<T>::v(vdt_binary[i]);
    count_on(); a(n, y.data(), x.data(), o.data()); count_off(l);
  }
  for (int i = 0; i < n_loops; ++i) {
    Source<T> q; q.init(id_of(loops[i].name), o_lits);
    int style = (int)g.below(3);
    for (uint32_t k = 0; k < n; ++k) { x[k] = any(q, g, style); y[k] = any(q, g, style); }
    std::string l = label(loops[i].name, loops[i].shape[0] == 'p' ? "loop" : "expression", sizeof(T) == 8, n, style);
    auto f = loops[i].d; auto ff = loops[i].f;
    count_on();
    if (sizeof(T) == 8) f(n, (const double*)x.data(), (const double*)y.data(), (double*)o.data(), (double*)p.data());
    else ff(n, (const float*)x.data(), (const float*)y.data(), (float*)o.data(), (float*)p.data());
    count_off(l);
  }
}
int main(int argc, char** argv) {
  parse_opts(argc, argv);
  for (uint64_t r = 0; r < o_chunks; ++r) {
    Rng g(o_seed, 4300, r);
    arrays<double>(g, 1000 + (uint32_t)g.below(2000));
    arrays<float>(g, 1000 + (uint32_t)g.below(2000));
  }
  rep_count("labelled parts of the workload", parts);
  rep_done();
  return 0;
}
