// Writes the arguments for preload_prog.c (--mode=gen) and judges what it returned (--mode=judge): with the library
// loaded before libm, the ten functions and their f forms give the bits of the fast functions, the others those of libm.
#include "opts.h"

struct Rec { uint32_t id, pad; double a, b; };
static const char* const names[] = {"fast_asin", "fast_acos", "fast_atan", "fast_cos", "fast_exp", "fast_log", "fast_sin", "fast_tan", "fast_tanh", "fast_atan2"};
static const char* const others[] = {"sqrt", "cbrt", "floor", "ceil", "fabs", "sinh", "cosh", "asinh", "acosh", "atanh", "log10", "log2", "log1p", "exp2", "expm1",
  "erf", "erfc", "tgamma", "rint", "trunc", "round", "logb", "pow", "hypot", "fmod", "remainder", "copysign", "fdim", "fmax", "fmin", "nextafter",
  "exp10", "nearbyint", "lgamma", "j0", "j1", "y0", "y1", "significand", "sincos", "modf", "frexp", "lgamma_r", "remquo", "fma", "ldexp", "scalbn", "ilogb", "lrint", "llround", "jn", "yn", "cexp", "csin", "clog", "carg", "cabs"};
static const unsigned NOTH = sizeof(others) / sizeof(others[0]), NL = 9, NREC = 20 + 2 * NOTH + NL;

template <class T> static T arg(Rng& g, const Source<T>& s) { return g.below(8) ? s.one(g) : special_value<T>(g); }
static void generate() {
  FILE* f = fopen((o_dir + "/in.bin").c_str(), "wb");
  if (!f) exit(3);
  for (unsigned id = 0; id < NREC; ++id) {
    bool fl = id < 20 + 2 * NOTH && (id & 1);
    int oid = id < 20 ? id_of(names[id / 2]) : NIDS;
    Source<double> sd; Source<float> sf;
    sd.init(oid, o_lits); sf.init(oid, o_lits);
    uint64_t n = id < 20 ? o_chunks : o_chunks / 20 + 200;
    for (uint64_t k = 0; k < n; ++k) {
      Rng g(o_seed, 1900 + id, k);
      Rec r; memset(&r, 0, sizeof r);
      r.id = id;
      if (fl) { r.a = arg<float>(g, sf); r.b = arg<float>(g, sf); } else { r.a = arg<double>(g, sd); r.b = arg<double>(g, sd); }
      if (k & 1) { r.a = fl ? (double)(float)g.uni(-2, 2) : g.uni(-2, 2); r.b = fl ? (double)(float)g.uni(-2, 2) : g.uni(-2, 2); }
      if (id < 20 && id / 2 == 9 && k % 16 == 0) r.a = r.b;
      fwrite(&r, sizeof r, 1, f);
    }
  }
  fclose(f);
}
static bool same(double a, double b) { return bits(a) == bits(b) || (a != a && b != b); }
static void judge() {
  FILE *fi = fopen((o_dir + "/in.bin").c_str(), "rb"), *fp = fopen((o_dir + "/plain.bin").c_str(), "rb"), *fl = fopen((o_dir + "/preload.bin").c_str(), "rb");
  if (!fi || !fp || !fl) exit(3);
  Rec r; double p, q;
  uint64_t n[2] = {0, 0}, differs[20] = {0};
  std::vector<Cells> c(20);
  std::vector<char> used(NREC, 0);
  while (fread(&r, sizeof r, 1, fi) == 1) {
    if (fread(&p, 8, 1, fp) != 1 || fread(&q, 8, 1, fl) != 1) { fprintf(stderr, "too few results\n"); exit(3); }
    if (r.id >= 20) {
      ++n[1]; used[r.id] = 1;
      std::string nm = r.id < 20 + 2 * NOTH ? std::string(others[(r.id - 20) / 2]) + ((r.id & 1) ? "f" : "") : std::string(names[r.id - 20 - 2 * NOTH] + 5) + "l";
      if (!same(p, q)) viol("other function " + nm, FMT("%s(%.17g, %.17g) changes from %.17g to %.17g when the library is loaded first", nm.c_str(), r.a, r.b, p, q), FMT("d:%016llx", (unsigned long long)bits(r.a)));
      continue;
    }
    ++n[0];
    const char* nm = names[r.id / 2];
    bool f = r.id & 1;
    double want;
    if (r.id / 2 == 9) {
      const Binary* b = 0;
      for (int i = 0; i < vdt_n_binary; ++i) if (!strcmp(nm, vdt_binary[i].name)) b = &vdt_binary[i];
      want = f ? (double)b->sf((float)r.a, (float)r.b) : b->sd(r.a, r.b);
    } else {
      const Unary* u = 0;
      for (int i = 0; i < vdt_n_unary; ++i) if (!strcmp(nm, vdt_unary[i].name)) u = &vdt_unary[i];
      want = f ? (double)u->sf((float)r.a) : u->sd(r.a);
    }
    c[r.id].hit((uint32_t)cell(r.a));
    if (!same(want, p)) ++differs[r.id];
    if (!same(want, q)) viol(std::string("preloaded ") + (nm + 5) + (f ? "f" : ""), FMT("%s%s(%.17g, %.17g) gives %.17g with the library loaded, the fast function %.17g", nm + 5, f ? "f" : "", r.a, r.b, q, want), FMT("d:%016llx", (unsigned long long)bits(r.a)));
  }
  rep_count("calls of the preloaded functions", n[0]);
  rep_count("calls of other functions", n[1]);
  uint64_t cells = 0, o = 0, seen = 0;
  for (int i = 0; i < 20; ++i) { cells += c[i].count(); if (differs[i]) ++seen; }
  for (unsigned i = 0; i < NREC; ++i) o += used[i];
  rep_cell("(function, sign, exponent, mantissa) of preloaded functions", cells);
  rep_cell("other functions called", o);
  // Where the fast result never differs from libm, the monitor could not tell which one was called.
  rep_sample(FMT("%llu of 20 functions have arguments where the fast result differs from libm", (unsigned long long)seen));
}
int main(int argc, char** argv) {
  parse_opts(argc, argv);
  if (o_mode == "gen") generate(); else judge();
  rep_done();
  return 0;
}
