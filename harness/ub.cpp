// Monitor of undefined operations in the fast functions. The library under test is compiled with
// -fsanitize=undefined,float-cast-overflow -fsanitize-recover=all; this file is the run time that receives
// every single report together with the call that is being made.
#include "opts.h"
#include <unistd.h>

struct SrcLoc { const char* file; uint32_t line, col; };
struct Ctx { std::string entry, cls; double x, y; bool two; uint64_t reports; bool cast; };
static __thread Ctx* ctx = 0;
static std::atomic<uint64_t> total_reports(0), consequences(0);

static void report(const char* kind, const void* data) {
  ++total_reports;
  if (!ctx) { viol(std::string(kind) + " outside calls", kind, ""); return; }
  ++ctx->reports;
  // After an unrepresentable number was converted the integer is arbitrary: that it overflows later in the same call is
  // the same defect, wherever it happens.
  if (!strcmp(kind, "float to integer overflow")) ctx->cast = true;
  else if (ctx->cast && !strcmp(kind, "signed overflow")) { ++consequences; return; }
  const SrcLoc* l = (const SrcLoc*)data;
  std::string key = std::string(kind) + " in " + ctx->entry + " for " + ctx->cls;
  if (!limiter.ok(key, 2)) return;
  const char* f = l->file ? l->file : "?";
  const char* b = strrchr(f, '/');
  rep_viol(key + o_cfg, FMT("%s at %s:%u:%u in %s, argument %.17g%s", kind, b ? b + 1 : f, l->line, l->col, ctx->entry.c_str(), ctx->x, ctx->two ? FMT(", %.17g", ctx->y).c_str() : ""), "call");
}
#define H1(N, K) extern "C" void __ubsan_handle_##N(void* d) { report(K, d); }
#define H2(N, K) extern "C" void __ubsan_handle_##N(void* d, unsigned long) { report(K, d); }
#define H3(N, K) extern "C" void __ubsan_handle_##N(void* d, unsigned long, unsigned long) { report(K, d); }
H2(type_mismatch_v1, "misaligned or null access") H2(type_mismatch, "misaligned or null access")
H3(alignment_assumption, "alignment assumption")
H3(add_overflow, "signed overflow") H3(sub_overflow, "signed overflow") H3(mul_overflow, "signed overflow")
H2(negate_overflow, "signed overflow") H3(divrem_overflow, "division overflow") H3(shift_out_of_bounds, "invalid shift")
H2(out_of_bounds, "index out of bounds") H2(vla_bound_not_positive, "bad array size")
H2(float_cast_overflow, "float to integer overflow") H2(load_invalid_value, "invalid value")
H1(invalid_builtin, "invalid builtin argument") H1(nonnull_arg, "null argument") H2(nonnull_return_v1, "null return")
H3(pointer_overflow, "pointer overflow") H2(function_type_mismatch, "wrong function type") H3(implicit_conversion, "implicit conversion")
H1(nullability_arg, "null argument") H2(nullability_return_v1, "null return")
extern "C" void __ubsan_handle_builtin_unreachable(void* d) { report("unreachable code", d); rep_done(); _exit(0); }
extern "C" void __ubsan_handle_missing_return(void* d) { report("missing return", d); rep_done(); _exit(0); }

// 0: no result is specified, otherwise the class of the argument.
template <class T> static const char* cls(int id, T x) {
  typedef std::numeric_limits<T> L;
  if (x != x) return "NaN";
  T a = x < 0 ? -x : x;
  switch (id) {
    case EXP: case TANH: return a > (T)1e9 ? "huge arguments" : "ordinary arguments";
    case LOG: return x == 0 || (x > 0 && x < L::min()) ? 0 : "ordinary arguments";
    case SIN: case COS: case TAN: return trig_dom(x) ? "ordinary arguments" : 0;
    case ASIN: case ACOS: case ATAN: return "ordinary arguments";
    case ISQRT: case AISQRT: case RISQRT: return x >= L::min() && x <= L::max() ? "ordinary arguments" : 0;
    case INV: case AINV: case RINV: return a >= L::min() && a <= L::max() ? "ordinary arguments" : 0;
    default: return "ordinary arguments";
  }
}
template <class T> static T pick(Rng& g, const Source<T>& s) {
  switch (g.below(10)) {
    case 0: return special_value<T>(g);
    case 1: return frombits((typename Fmt<T>::U)g.u64(), T());
    case 2: return (T)(exp(g.uni(-700, 700)) * (g.u64() & 1 ? 1 : -1));
    default: return s.one(g);
  }
}
template <class T> static void unary(const Unary& u, int k) {
  int id = id_of(u.name);
  Source<T> src; src.init(id, o_lits);
  const uint64_t ne = src.n_enum(), CH = 4000, ec = (ne + CH - 1) / CH;
  std::vector<Cells> cells(o_threads);
  std::atomic<uint64_t> n(0);
  par(o_chunks + ec, [&](uint64_t c, unsigned t) {
    Rng g(o_seed, 1100 + 2 * k + (sizeof(T) == 8), c);
    Ctx x; ctx = &x;
    x.two = false; x.reports = 0; x.y = 0;
    uint64_t m = 0;
    std::vector<T> by[3]; static const char* names[3] = {"ordinary arguments", "NaN", "huge arguments"};
    x.entry = std::string(u.name) + Sel<T>::suf();
    for (uint64_t i = 0; i < CH; ++i) {
      if (c < ec && c * CH + i >= ne) break;
      T v = c < ec ? src.enumerated(c * CH + i) : pick<T>(g, src);
      const char* q = cls<T>(id, v);
      if (!q) continue;
      if (q[0] != 'o' && g.below(4)) continue;
      x.x = v; if (x.cls != q) x.cls = q;
      cells[t].hit(cell(v));
      x.cast = false;
      Sel<T>::s(u)(v);
      ++m;
      by[q[0] == 'o' ? 0 : q[0] == 'N' ? 1 : 2].push_back(v);
    }
    // arrays by class, so that a report can be attributed
    x.entry += "v";
    for (int b = 0; b < 3; ++b) {
      if (by[b].empty()) continue;
      std::vector<T> o(by[b].size());
      x.cls = names[b]; x.x = by[b][0];
      size_t cut = g.below(by[b].size() + 1);
      x.cast = false;
      Sel<T>::v(u)((uint32_t)cut, by[b].data(), o.data());
      if (cut < by[b].size()) x.x = by[b][cut];
      x.cast = false;
      Sel<T>::v(u)((uint32_t)(by[b].size() - cut), by[b].data() + cut, o.data());
      m += by[b].size();
    }
    n += m;
    ctx = 0;
  });
  for (unsigned i = 1; i < o_threads; ++i) cells[0].merge(cells[i]);
  rep_count(FMT("evaluations %s%s%s", u.name, Sel<T>::suf(), o_cfg.c_str()), n);
  rep_cell(FMT("evaluations %s%s%s", u.name, Sel<T>::suf(), o_cfg.c_str()), cells[0].count());
}
template <class T> static void binary(const Binary& u, int k) {
  Source<T> src; src.init(NIDS, o_lits);
  std::vector<Cells> cells(o_threads);
  std::atomic<uint64_t> n(0);
  par(o_chunks, [&](uint64_t c, unsigned t) {
    Rng g(o_seed, 1300 + 2 * k + (sizeof(T) == 8), c);
    Ctx q; ctx = &q;
    q.two = true; q.reports = 0; q.cls = "finite arguments and NaN";
    q.entry = std::string(u.name) + Sel<T>::suf();
    std::vector<T> y, x;
    for (int i = 0; i < 4000; ++i) {
      T a = pick<T>(g, src), b = g.below(4) ? pick<T>(g, src) : a * (T)g.uni(-2, 2);
      if (a - a != 0 && a == a) continue;
      if (b - b != 0 && b == b) continue;
      q.x = a; q.y = b;
      q.cast = false;
      Sel<T>::s(u)(a, b);
      cells[t].hit((uint32_t)((bits(a) >> (sizeof(T) * 8 - 10)) << 10 | bits(b) >> (sizeof(T) * 8 - 10)) & 0xfffff);
      y.push_back(a); x.push_back(b);
    }
    q.entry += "v";
    std::vector<T> o(y.size());
    q.cast = false;
    Sel<T>::v(u)((uint32_t)y.size(), y.data(), x.data(), o.data());
    n += 2 * y.size();
    ctx = 0;
  });
  for (unsigned i = 1; i < o_threads; ++i) cells[0].merge(cells[i]);
  rep_count(FMT("evaluations %s%s%s", u.name, Sel<T>::suf(), o_cfg.c_str()), n);
  rep_cell(FMT("evaluations %s%s%s", u.name, Sel<T>::suf(), o_cfg.c_str()), cells[0].count());
}
template <class T> static void sincos(void (*f)(T, T&, T&)) {
  Source<T> src; src.init(SIN, o_lits);
  Ctx q; ctx = &q;
  q.two = false; q.reports = 0; q.entry = std::string("fast_sincos") + Sel<T>::suf();
  Rng g(o_seed, 1400 + sizeof(T), 0);
  uint64_t n = 0; Cells c;
  for (uint64_t i = 0; i < src.n_enum() + o_chunks * 500; ++i) {
    T v = i < src.n_enum() ? src.enumerated(i) : pick<T>(g, src), a, b;
    const char* k = cls<T>(SIN, v);
    if (!k || (k[0] != 'o' && g.below(4))) continue;
    q.x = v; q.cls = k;
    q.cast = false;
    f(v, a, b);
    ++n; c.hit(cell(v));
  }
  ctx = 0;
  rep_count(q.entry + o_cfg, n);
  rep_cell(q.entry + o_cfg, c.count());
}
int main(int argc, char** argv) {
  parse_opts(argc, argv);
  for (int i = 0; i < vdt_n_unary; ++i) { unary<double>(vdt_unary[i], i); unary<float>(vdt_unary[i], i); }
  for (int i = 0; i < vdt_n_binary; ++i) { binary<double>(vdt_binary[i], i); binary<float>(vdt_binary[i], i); }
  sincos<double>(vdt_sincos_d);
  sincos<float>(vdt_sincos_f);
  rep_sample(FMT("%llu reports of undefined operations received, %llu of them follow from an earlier one of the same call%s", (unsigned long long)total_reports.load(), (unsigned long long)consequences.load(), o_cfg.c_str()));
  rep_done();
  return 0;
}
