// Judges the response files written by vdtArithmBenchmark: names, headers, rows, intervals, results.
#include "opts.h"
#include <dirent.h>
#include <fstream>
#include <set>
#include <sstream>

struct Def { const char* name; const char* fn; int pool; };  // 0 symmetric, 1 positive, 2 [-1, 1], 3 exponential
static const Def defs[] = {
  {"Identity", "identity", 0}, {"Exp", "exp", 3}, {"Log", "log", 1}, {"Sin", "sin", 0}, {"Cos", "cos", 0}, {"Tan", "tan", 0}, {"Tanh", "tanh", 0},
  {"Asin", "asin", 2}, {"Acos", "acos", 2}, {"Atan", "atan", 0}, {"Isqrt", "/isqrt", 1}, {"Inverse", "/inv", 0},
  {"Fast_Exp", "fast_exp", 3}, {"Fast_Log", "fast_log", 1}, {"Fast_Sin", "fast_sin", 0}, {"Fast_Cos", "fast_cos", 0}, {"Fast_Tan", "fast_tan", 0}, {"Fast_Tanh", "fast_tanh", 0},
  {"Fast_Asin", "fast_asin", 2}, {"Fast_Acos", "fast_acos", 2}, {"Fast_Atan", "fast_atan", 0}, {"Fast_Isqrt", "fast_isqrt", 1}, {"Fast_Inv", "fast_inv", 0},
  {"Fast_Apr_Isqrt", "fast_approx_isqrt", 1}, {"Fast_Apr_Inv", "fast_approx_inv", 0}, {"Atan2", "atan2", 4}, {"Fast_Atan2", "fast_atan2", 4}};
static uint64_t n_rows = 0, n_files = 0;

template <class T> static T eval(const Def& d, T a, T b) {
  if (!strcmp(d.fn, "/isqrt")) return (T)1 / std::sqrt(a);
  if (!strcmp(d.fn, "/inv")) return (T)1 / a;
  if (!strcmp(d.fn, "identity")) return a;
  for (int i = 0; i < vdt_n_unary; ++i) if (!strcmp(d.fn, vdt_unary[i].name)) return Sel<T>::s(vdt_unary[i])(a);
  for (int i = 0; i < vdt_n_binary; ++i) if (!strcmp(d.fn, vdt_binary[i].name)) return Sel<T>::s(vdt_binary[i])(a, b);
  exit(3);
}
template <class T> static void one(const Def& d, const char* form, std::set<std::string>& left, uint64_t size) {
  std::string fn = std::string(d.name) + Sel<T>::suf() + form, file = o_only + "__" + fn + "__response.txt";
  if (!left.erase(file)) { viol("missing file " + fn, "no file " + file, ""); return; }
  ++n_files;
  std::ifstream f((o_dir + "/" + file).c_str());
  std::string l;
  std::vector<std::string> head;
  while (head.size() < 5 && std::getline(f, l)) head.push_back(l);
  if (head.size() < 5 || head[1] != (sizeof(T) == 8 ? "Double Precision" : "Single Precision") || head[2].size() < fn.size() + 1 || head[2].substr(head[2].size() - fn.size() - 1) != " " + fn) {
    viol("header " + fn, file + ": wrong header", ""); return;
  }
  double hi = d.pool == 3 ? (sizeof(T) == 8 ? 705 : 85) : d.pool == 2 || d.pool == 4 ? 1 : 5000, lo = d.pool == 1 ? (double)(T).0001 : -hi, mn = 1e300, mx = -1e300, mn2 = 1e300, mx2 = -1e300;
  uint64_t rows = 0;
  bool two = d.pool == 4;
  while (std::getline(f, l)) {
    std::istringstream is(l);
    std::string w[4];
    int k = 0;
    while (k < 4 && is >> w[k]) ++k;
    T v[3];
    bool ok = k == (two ? 3 : 2);
    for (int i = 0; i < k && i < 3; ++i) {
      char* e; unsigned long long u = strtoull(w[i].c_str() + 2, &e, 16);
      ok = ok && w[i].compare(0, 2, "0x") == 0 && !*e && (sizeof(T) == 8 || u >> 32 == 0);
      v[i] = frombits((typename Fmt<T>::U)u, T());
    }
    if (!ok) { viol("row " + fn, FMT("%s row %llu is '%s'", file.c_str(), (unsigned long long)rows, l.substr(0, 100).c_str()), ""); return; }
    ++rows; ++n_rows;
    if (!(v[0] >= lo && v[0] <= hi) || (two && !(v[1] >= lo && v[1] <= hi))) { viol("interval " + fn, FMT("%s row %llu: input %.17g outside [%g, %g]", file.c_str(), (unsigned long long)rows, (double)v[0], lo, hi), ""); return; }
    mn = std::min(mn, (double)v[0]); mx = std::max(mx, (double)v[0]);
    if (two) { mn2 = std::min(mn2, (double)v[1]); mx2 = std::max(mx2, (double)v[1]); }
    T r = v[two ? 2 : 1], e = eval<T>(d, v[0], v[1]);
    if (bits(r) != bits(e) && !(r != r && e != e)) { viol("result " + fn, FMT("%s row %llu: %s(%.17g) is %.17g, expected %.17g", file.c_str(), (unsigned long long)rows, fn.c_str(), (double)v[0], (double)r, (double)e), hexb(v[0])); return; }
  }
  if (!strcmp(d.name, "Fast_Exp")) rep_sample(FMT("%s: %llu rows, inputs in [%g, %g]", file.c_str(), (unsigned long long)rows, mn, mx));
  if (rows != size) viol("rows " + fn, FMT("%s has %llu rows, expected %llu", file.c_str(), (unsigned long long)rows, (unsigned long long)size), "");
  double w = (hi - lo) * 40 / rows;  // a uniform sample leaves this much of either end empty with probability exp(-40)
  if (rows >= 400 && (mn > lo + w || mx < hi - w || (two && (mn2 > lo + w || mx2 < hi - w)))) viol("spread " + fn, FMT("%s: inputs only in [%g, %g] of [%g, %g]", file.c_str(), mn, mx, lo, hi), "");
}
int main(int argc, char** argv) {
  parse_opts(argc, argv);
  std::set<std::string> left;
  DIR* D = opendir(o_dir.c_str());
  if (!D) return 3;
  while (dirent* e = readdir(D)) { std::string n = e->d_name; if (n.compare(0, o_only.size() + 2, o_only + "__") == 0) left.insert(n); }
  closedir(D);
  for (size_t i = 0; i < sizeof(defs) / sizeof(defs[0]); ++i)
    for (int v = 0; v < 2; ++v) { one<double>(defs[i], v ? "v" : "", left, o_chunks); one<float>(defs[i], v ? "v" : "", left, o_chunks); }
  if (!left.empty()) viol("other files", "unexpected file " + *left.begin(), "");
  rep_count("rows of response files", n_rows);
  rep_cell("response files", n_files);
  rep_done();
  return 0;
}
