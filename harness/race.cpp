// Workload for ThreadSanitizer: all entry points at once from several threads on shared inputs, separate outputs.
// Everything is instrumented; a report of the sanitizer decides.
#include "opts.h"

template <class T> static void work(unsigned t, const std::vector<T>& in, std::vector<T>& out, uint64_t& n) {
  Rng g(o_seed, 950 + sizeof(T), t);
  for (uint64_t r = 0; r < o_chunks; ++r) {
    uint32_t m = 1 + (uint32_t)g.below(60), at = (uint32_t)g.below(in.size() - 61), bt = (uint32_t)g.below(in.size() - 61);
    for (int i = 0; i < vdt_n_unary; ++i) {
      Sel<T>::v(vdt_unary[i])(m, &in[at], &out[0]);
      out[61] = Sel<T>::s(vdt_unary[i])(in[bt]);
      n += 2;
    }
    for (int i = 0; i < vdt_n_binary; ++i) {
      Sel<T>::v(vdt_binary[i])(m, &in[at], &in[bt], &out[0]);
      out[61] = Sel<T>::s(vdt_binary[i])(in[at], in[bt]);
      n += 2;
    }
  }
}
int main(int argc, char** argv) {
  parse_opts(argc, argv);
  std::vector<double> xd; std::vector<float> xf;
  Rng g(o_seed, 949, 0);
  Source<double> sd[4]; Source<float> sf[4];
  const int ids[] = {NIDS, EXP, SIN, ASIN};
  for (int k = 0; k < 4; ++k) { sd[k].init(ids[k], o_lits); sf[k].init(ids[k], o_lits); }
  for (int i = 0; i < 4000; ++i) {
    // huge arguments of exp are left out: they are a matter of C16
    double d = sd[i & 3].one(g);
    xd.push_back(d); xf.push_back(sf[i & 3].one(g));
    if (i % 50 == 0) { xd.back() = special_value<double>(g); xf.back() = special_value<float>(g); }
  }
  for (unsigned nt = 2; nt <= 8; nt += 2) {
    std::vector<std::thread> th;
    std::vector<uint64_t> n(nt, 0);
    for (unsigned t = 0; t < nt; ++t)
      th.push_back(std::thread([&, t] {
        std::vector<double> od(64); std::vector<float> of(64);
        double s, c; float fs, fc;
        for (int i = 0; i < 50; ++i) { vdt_sincos_d(xd[i], s, c); vdt_sincos_f(xf[i], fs, fc); n[t] += 2; }
        work<double>(t, xd, od, n[t]);
        work<float>(t, xf, of, n[t]);
      }));
    uint64_t all = 0;
    for (unsigned t = 0; t < nt; ++t) { th[t].join(); all += n[t]; }
    rep_count(FMT("calls observed by ThreadSanitizer in %u threads", nt), all);
    rep_cell("thread counts under ThreadSanitizer", 1);
  }
  rep_done();
  return 0;
}
