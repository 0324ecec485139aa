// Monitor of the generated Vc wrapper: every function on arrays of all small lengths between guard pages of words.
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <set>
#include <tuple>
#include <vector>
#include "report.h"
#include "vdtdiag_vcWrapper.h"
#include "Vc/Vc"

static uint64_t n_el = 0, n_guard = 0, rs = 88172645463325252ULL;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
template <class T> static T ident(T x) { return x; }
static std::set<std::tuple<std::string, uint32_t, size_t, size_t> > seen;
static int fails = 0;
static void viol(const std::string& k, const std::string& t) { if (fails++ < 40) rep_viol(k, t, k); }

template <class T, class V> static void judge(const char* name, T (*s)(T), V v, T (*want)(T), int rounds) {
  for (int r = 0; r < rounds; ++r) {
    uint32_t n = r < 80 ? r : r == 80 ? 65530 + rnd() % 12 : r == 81 ? 100000 + rnd() % 100000 : r == 82 ? (1u << 20) + rnd() % 9 : rnd() % 5000;
    size_t pi = rnd() % 9, po = rnd() % 9;
    // the input is allocated to its last element so that a read beyond it is seen by the sanitizer
    T* in = (T*)malloc((pi + n) * sizeof(T) + !(pi + n));
    std::vector<T> out(po + n + 40);
    for (size_t i = 0; i < pi + n; ++i) in[i] = (T)(int64_t)(rnd() % 20001) - 10000;
    std::vector<T> keep(in, in + pi + n);
    for (size_t i = 0; i < out.size(); ++i) out[i] = (T)123457;
    v(n, in + pi, out.data() + po);
    for (uint32_t i = 0; i < n; ++i) {
      ++n_el;
      if (out[po + i] != want(keep[pi + i])) { viol(std::string(name) + " array", FMT("%s: element %u of %u is %g, expected %g", name, i, n, (double)out[po + i], (double)want(keep[pi + i]))); break; }
      if (i < 3 && s(keep[pi + i]) != want(keep[pi + i])) { viol(std::string(name) + " scalar", FMT("%s(%g) is %g", name, (double)keep[pi + i], (double)s(keep[pi + i]))); break; }
    }
    for (size_t i = 0; i < out.size(); ++i)
      if (i < po || i >= po + n) { ++n_guard; if (out[i] != (T)123457) { viol(std::string(name) + " writes outside", FMT("%s with %u elements wrote element %d", name, n, (int)(i - po))); break; } }
    if (pi + n && memcmp(in, keep.data(), (pi + n) * sizeof(T))) viol(std::string(name) + " changes its input", FMT("%s with %u elements changed its input", name, n));
    free(in);
    seen.insert(std::make_tuple(std::string(name), n, pi, po));
  }
}
#define J(n, w) judge<double>("vc_" #n, vc_##n, vc_##n##v, w<double>, R); judge<float>("vc_" #n "f", vc_##n##f, vc_##n##fv, w<float>, R);
int main(int argc, char** argv) {
  int R = atoi(argv[1]);
  rs ^= strtoull(argv[2], 0, 10) * 0x9E3779B97F4A7C15ULL;
  J(asin, Vc::vmon_asin) J(atan, Vc::vmon_atan) J(cos, Vc::vmon_cos) J(inv, Vc::vmon_reciprocal) J(log, Vc::vmon_log) J(sin, Vc::vmon_sin) J(isqrt, Vc::vmon_rsqrt) J(identity, ident)
  rep_count("elements compared", n_el);
  rep_count("guard elements compared", n_guard);
  rep_cell(FMT("distinct (function, length, offset) runs at vector width %d%s", VC_WIDTH, argc > 3 ? argv[3] : ""), seen.size());
  rep_sample(FMT("vector width %d bytes: 16 functions, lengths 0..79 and %d longer ones", VC_WIDTH, R - 80));
  rep_done();
  return 0;
}
