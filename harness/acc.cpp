// Accuracy monitor of the unary functions and of atan2: runs the scalar functions of the
// library and judges every result with oracle.h.
//   acc --id=fast_exp[,..] --seed=S --chunks=N --stride=K --lits=FILE [--nan=0|1] [--form=array]
//   acc --id=fast_exp --replay=d:3ff0000000000000     (bits of the argument)
#include "gen.h"
#include "report.h"
#include "table.h"
#include <atomic>
#include <cstdlib>
#include <thread>

static uint64_t seed = 1, chunks = 64, chunk_size = 20000, stride = 1;
static unsigned nthreads = 8;
static std::vector<double> lits;
static bool judge_nan = false;   // also judge results for NaN arguments
static bool only_special = false;  // judge only what is not a number-valued result
static bool use_arrays = false;
static bool turns = false;  // arguments around every multiple of pi/2
static std::string cfg = "";

template <class T> static const char* suf() { return sizeof(T) == 8 ? "" : "f"; }
static std::string hexbits(double x) { return FMT("d:%016llx", (unsigned long long)bits(x)); }
static std::string hexbits(float x) { return FMT("f:%08x", bits(x)); }

template <class T> struct Tally {
  uint64_t evals, judged, bad;
  double worst; T worst_at, worst_v;
  struct V { T x, v; } first[4];
  unsigned nfirst;
  Cells cells;
  Tally() : evals(0), judged(0), bad(0), worst(-1), worst_at(0), worst_v(0), nfirst(0) {}
};

// The scalar or the array function, applied to a list of arguments.
template <class T> struct Fn {
  T (*s)(T); void (*v)(uint32_t, const T*, T*);
  void operator()(const std::vector<T>& x, std::vector<T>& r) const {
    r.resize(x.size());
    if (use_arrays) { v((uint32_t)x.size(), x.data(), r.data()); return; }
    for (size_t i = 0; i < x.size(); ++i) r[i] = s(x[i]);
  }
};

template <int ID, class T> static inline bool wanted(T x) {
  Kind k = Cls<ID>::k(x);
  return !(k == SKIP || (k == ISNAN && x != x && !judge_nan) || (only_special && k == NUM));
}
template <int ID, class T> static inline void one(T x, T v, Tally<T>& t) {
  Kind k = Cls<ID>::k(x);
  ++t.evals;
  Judged j = judge<ID, T>(x, v, k);
  if (j.norm > t.worst) { t.worst = j.norm; t.worst_at = x; t.worst_v = v; }
  if (j.bad) {
    if (t.nfirst < 4) { t.first[t.nfirst].x = x; t.first[t.nfirst].v = v; ++t.nfirst; }
    ++t.bad;
  }
  t.cells.hit(cell(x));
}

template <int ID, class T> static std::string expectation(T x) {
  switch (Cls<ID>::k(x)) {
    case PINF: return "+inf";
    case NINF: return "-inf";
    case ZERO: return "0";
    case ISNAN: return "NaN";
    case NUM: {
      typename W<T>::type r = Ref<ID>::template f<typename W<T>::type>(x);
      return FMT("%.21Lg within %.4Lg", (long double)r, (long double)Tol<ID>::t(x, r));
    }
    default: return "nothing";
  }
}

template <int ID, class T> static void finish(std::vector<Tally<T> >& ts, const char* how, const char* name) {
  Tally<T> a;
  unsigned told = 0;
  for (size_t i = 0; i < ts.size(); ++i) {
    Tally<T>& t = ts[i];
    a.evals += t.evals; a.bad += t.bad;
    if (t.worst > a.worst) { a.worst = t.worst; a.worst_at = t.worst_at; a.worst_v = t.worst_v; }
    a.cells.merge(t.cells);
    for (unsigned j = 0; j < t.nfirst && told < 4; ++j, ++told) {
      T x = t.first[j].x;
      rep_viol(std::string(name) + suf<T>() + cfg, FMT("%s%s(%.17g) returned %.17g, expected %s (%llu bad in this part)", name, suf<T>(),
               (double)x, (double)t.first[j].v, expectation<ID>(x).c_str(), (unsigned long long)t.bad), hexbits(x));
    }
  }
  rep_count(std::string(how) + " " + name + suf<T>() + cfg, a.evals);
  rep_cell(std::string(how) + " " + name + suf<T>() + cfg, a.cells.count());
  rep_max(std::string(name) + suf<T>() + cfg + " error/bound (" + how + ")", a.worst, FMT("%.17g -> %.17g", (double)a.worst_at, (double)a.worst_v));
  rep_sample(FMT("%s%s%s(%.17g) = %.17g, error %.3f of the bound", name, suf<T>(), cfg.c_str(), (double)a.worst_at, (double)a.worst_v, a.worst));
}

template <int ID, class T> static void sampled(const Fn<T>& f, const char* name) {
  Source<T> src;
  src.init(ID, lits);
  std::vector<Tally<T> > ts(nthreads);
  std::atomic<uint64_t> next(0);
  const size_t ne = src.n_enum();
  const uint64_t echunks = (ne + chunk_size - 1) / chunk_size;
  std::vector<std::thread> th;
  for (unsigned i = 0; i < nthreads; ++i)
    th.push_back(std::thread([&, i] {
      std::vector<T> xs, vs;
      for (;;) {
        uint64_t c = next++;
        if (c >= chunks + echunks) break;
        xs.clear();
        Rng g(seed, ID * 2 + (sizeof(T) == 8), c - echunks);
        for (uint64_t k = 0; k < chunk_size; ++k) {
          if (c < echunks && c * chunk_size + k >= ne) break;
          T x = c < echunks ? src.enumerated(c * chunk_size + k) : src.one(g);
          if (wanted<ID, T>(x)) xs.push_back(x);
        }
        f(xs, vs);
        for (size_t k = 0; k < xs.size(); ++k) one<ID, T>(xs[k], vs[k], ts[i]);
      }
    }));
  for (size_t i = 0; i < th.size(); ++i) th[i].join();
  finish<ID, T>(ts, "sampled", name);
}

// All single precision bit patterns (or every stride-th, shifted by the seed).
template <int ID> static void exhaustive(const Fn<float>& f, const char* name) {
  std::vector<Tally<float> > ts(nthreads);
  std::atomic<uint64_t> next(0);
  const uint64_t BLK = 1 << 16, NB = (1ull << 32) / BLK;
  std::vector<std::thread> th;
  for (unsigned i = 0; i < nthreads; ++i)
    th.push_back(std::thread([&, i] {
      std::vector<float> xs, vs;
      for (;;) {
        uint64_t b = next++;
        if (b >= NB) break;
        xs.clear();
        for (uint64_t u = b * BLK + seed % stride; u < (b + 1) * BLK; u += stride)
          if (wanted<ID, float>(flt((uint32_t)u))) xs.push_back(flt((uint32_t)u));
        f(xs, vs);
        for (size_t k = 0; k < xs.size(); ++k) one<ID, float>(xs[k], vs[k], ts[i]);
      }
    }));
  for (size_t i = 0; i < th.size(); ++i) th[i].join();
  finish<ID, float>(ts, stride == 1 ? "exhaustive" : "strided", name);
}

// Two arguments around every multiple of pi/2 up to 1e8: one anywhere within pi/4 of it, one close to it.
template <int ID> static void quarters(const Fn<double>& f, const char* name) {
  std::vector<Tally<double> > ts(nthreads);
  std::atomic<uint64_t> next(0);
  const uint64_t BLK = 1 << 14, N = (uint64_t)(1e8 / M_PI_2) + 2;
  std::vector<std::thread> th;
  for (unsigned i = 0; i < nthreads; ++i)
    th.push_back(std::thread([&, i] {
      std::vector<double> xs, vs;
      for (;;) {
        const uint64_t b = next++;
        if (b * BLK >= N) break;
        xs.clear();
        Rng g(seed, 300 + ID, b);
        for (uint64_t q = b * BLK; q < (b + 1) * BLK && q < N; ++q) {
          const double m = q * M_PI_2;
          const double x[2] = {m + g.uni(-M_PI_4, M_PI_4), m + std::ldexp(g.uni(-1, 1), -(int)g.below(30))};
          for (int k = 0; k < 2; ++k) { const double y = g.u64() & 1 ? x[k] : -x[k]; if (wanted<ID, double>(y)) xs.push_back(y); }
        }
        f(xs, vs);
        for (size_t k = 0; k < xs.size(); ++k) one<ID, double>(xs[k], vs[k], ts[i]);
      }
    }));
  for (size_t i = 0; i < th.size(); ++i) th[i].join();
  finish<ID, double>(ts, "every quarter turn", name);
}

template <int ID> static void run_id(const Unary& u, bool dd, bool ff, const std::string& replay) {
  if (!replay.empty()) {
    uint64_t b = strtoull(replay.c_str() + 2, 0, 16);
    judge_nan = true;
    if (replay[0] == 'd') {
      std::vector<Tally<double> > t(1); if (wanted<ID>(dbl(b))) one<ID, double>(dbl(b), u.sd(dbl(b)), t[0]);
      printf("%s(%.17g) = %.17g, expected %s: %s\n", u.name, dbl(b), u.sd(dbl(b)), expectation<ID>(dbl(b)).c_str(), t[0].bad ? "VIOLATED" : "held");
    } else {
      std::vector<Tally<float> > t(1); if (wanted<ID>(flt((uint32_t)b))) one<ID, float>(flt((uint32_t)b), u.sf(flt((uint32_t)b)), t[0]);
      printf("%sf(%.9g) = %.9g, expected %s: %s\n", u.name, flt((uint32_t)b), u.sf(flt((uint32_t)b)), expectation<ID>(flt((uint32_t)b)).c_str(), t[0].bad ? "VIOLATED" : "held");
    }
    return;
  }
  const Fn<double> fd = {u.sd, u.vd};
  const Fn<float> ffl = {u.sf, u.vf};
  if (dd) sampled<ID, double>(fd, u.name);
  if (dd && turns && (ID == SIN || ID == COS || ID == TAN)) quarters<ID>(fd, u.name);
  if (ff) {
    if (stride != 1) sampled<ID, float>(ffl, u.name);
    if (stride) exhaustive<ID>(ffl, u.name);
  }
}

// ---- two arguments -------------------------------------------------------------------
template <class T> struct Tally2 {
  uint64_t evals, bad; double worst; T wy, wx, wv;
  struct V { T y, x, v; } first[4]; unsigned nfirst; Cells cells;
  Tally2() : evals(0), bad(0), worst(-1), wy(0), wx(0), wv(0), nfirst(0) {}
};
template <class T> struct Fn2 { T (*s)(T, T); void (*v)(uint32_t, const T*, const T*, T*); };
template <class T> struct Pending { std::vector<T> y, x, v; };
template <class T> static inline void put2(T y, T x, Pending<T>& p) {
  Kind k = cls_atan2(y, x);
  if (k == SKIP || (k == ISNAN && !judge_nan) || (only_special && k == NUM)) return;
  p.y.push_back(y); p.x.push_back(x);
}
template <class T> static inline void one2(T y, T x, T v, Tally2<T>& t) {
  Kind k = cls_atan2(y, x);
  ++t.evals;
  Judged j = judge_atan2(y, x, v, k);
  if (j.norm > t.worst) { t.worst = j.norm; t.wy = y; t.wx = x; t.wv = v; }
  if (j.bad) {
    if (t.nfirst < 4) { t.first[t.nfirst].y = y; t.first[t.nfirst].x = x; t.first[t.nfirst].v = v; ++t.nfirst; }
    ++t.bad;
  }
  // quadrant and octant, ratio in steps of a factor of 2, magnitude in steps of 2^16
  int ey = (int)(bits(y) >> Fmt<T>::MB) & Fmt<T>::EMAX, ex = (int)(bits(x) >> Fmt<T>::MB) & Fmt<T>::EMAX;
  int d = ey - ex; if (d > 127) d = 127; if (d < -128) d = -128;
  uint32_t c = (y < 0) | (x < 0) << 1 | (y == 0) << 2 | (x == 0) << 3 | (uint32_t)(d + 128) << 4 | (uint32_t)((ex * 128 / Fmt<T>::EMAX) & 127) << 12;
  t.cells.hit(c & 0xfffff);
}
template <class T> static void flush2(const Fn2<T>& f, Pending<T>& p, Tally2<T>& t) {
  p.v.resize(p.y.size());
  if (use_arrays) f.v((uint32_t)p.y.size(), p.y.data(), p.x.data(), p.v.data());
  else for (size_t i = 0; i < p.y.size(); ++i) p.v[i] = f.s(p.y[i], p.x[i]);
  for (size_t i = 0; i < p.y.size(); ++i) one2<T>(p.y[i], p.x[i], p.v[i], t);
  p.y.clear(); p.x.clear();
}
template <class T> static void atan2_all(const Fn2<T>& f, const char* name) {
  Source<T> src; src.init(NIDS, lits);
  Source<T> ang; ang.init(ATAN, lits);
  std::vector<T> sp;
  const double sv[] = {0, 1, 2, 0.5, 3, 5000, 1e-5, 0.66, 2.414213562373095, 0.4142135623730950};
  for (size_t i = 0; i < sizeof(sv) / 8; ++i) { sp.push_back((T)sv[i]); sp.push_back(-(T)sv[i]); }
  const T lim[] = {std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), std::numeric_limits<T>::denorm_min(),
                   std::numeric_limits<T>::epsilon(), std::numeric_limits<T>::min() * (T)0.5};
  for (int i = 0; i < 5; ++i) { sp.push_back(lim[i]); sp.push_back(-lim[i]); }
  for (size_t i = 0; i < lits.size(); ++i) { T t = (T)lits[i]; if (t - t == 0) { sp.push_back(t); sp.push_back(-t); } }
  std::sort(sp.begin(), sp.end());
  sp.erase(std::unique(sp.begin(), sp.end()), sp.end());
  std::vector<Tally2<T> > ts(nthreads);
  std::atomic<uint64_t> next(0);
  std::vector<std::thread> th;
  const uint64_t pre = sp.size();
  for (unsigned i = 0; i < nthreads; ++i)
    th.push_back(std::thread([&, i] {
      Pending<T> pend;
      for (;;) {
        flush2<T>(f, pend, ts[i]);
        uint64_t c = next++;
        if (c >= chunks + pre) break;
        if (c < pre) {  // all pairs of special values, and each axis against every critical value
          for (size_t k = 0; k < sp.size(); ++k) put2<T>(sp[c], sp[k], pend);
          if (c == 0)
            for (size_t k = 0; k < src.n_enum(); ++k) {
              T t = src.enumerated(k);
              put2<T>(t, 0, pend); put2<T>(t, -(T)0, pend); put2<T>(0, t, pend); put2<T>(-(T)0, t, pend);
              put2<T>(t, t, pend); put2<T>(t, -t, pend); put2<T>(t, 1, pend); put2<T>(t, -1, pend);
              put2<T>(1, t, pend); put2<T>(-1, t, pend);
            }
          continue;
        }
        Rng g(seed, 100 + (sizeof(T) == 8), c - pre);
        for (uint64_t k = 0; k < chunk_size; ++k) {
          T y, x;
          switch (g.below(8)) {
            case 0: case 1: y = (T)g.uni(-5000, 5000); x = (T)g.uni(-5000, 5000); break;
            case 2: y = src.randexp(g); x = src.randexp(g); break;
            case 3: {  // chosen ratio
              x = g.below(2) ? (T)g.uni(-5000, 5000) : src.randexp(g);
              y = x * ang.critical(g);
              if (g.below(2)) { T s = x; x = y; y = s; }
              if (g.below(2)) y = -y;
              break;
            }
            case 4: y = src.critical(g); x = src.critical(g); break;
            case 5: y = src.one(g); x = src.one(g); break;
            case 6: {  // nearby exponents anywhere in the range
              x = src.randexp(g);
              y = (T)std::ldexp((T)g.uni(-4, 4), (int)std::ilogb(x));
              break;
            }
            default: {
              T a = (T)g.uni(-M_PI, M_PI), r = (T)g.uni(0, 100);
              y = r * std::sin(a); x = r * std::cos(a);
            }
          }
          if (y - y != 0 || x - x != 0) continue;
          put2<T>(y, x, pend);
        }
      }
    }));
  for (size_t i = 0; i < th.size(); ++i) th[i].join();
  Tally2<T> a;
  unsigned told = 0;
  for (size_t i = 0; i < ts.size(); ++i) {
    Tally2<T>& t = ts[i];
    a.evals += t.evals; a.cells.merge(t.cells);
    if (t.worst > a.worst) { a.worst = t.worst; a.wy = t.wy; a.wx = t.wx; a.wv = t.wv; }
    for (unsigned j = 0; j < t.nfirst && told < 4; ++j, ++told) {
      T y = t.first[j].y, x = t.first[j].x;
      long double r = ref_atan2w(y, x);
      rep_viol(std::string(name) + suf<T>() + cfg, FMT("%s%s(%.17g, %.17g) returned %.17g, expected %.21Lg within %.4Lg (%llu bad in this part)", name, suf<T>(), (double)y, (double)x,
               (double)t.first[j].v, r, (long double)tol_atan2(y, x, r), (unsigned long long)t.bad), hexbits(y) + "," + hexbits(x));
    }
  }
  rep_count(std::string("sampled ") + name + suf<T>() + cfg, a.evals);
  rep_cell(std::string("sampled ") + name + suf<T>() + cfg, a.cells.count());
  rep_max(std::string(name) + suf<T>() + cfg + " error/bound", a.worst, FMT("(%.17g, %.17g) -> %.17g", (double)a.wy, (double)a.wx, (double)a.wv));
  rep_sample(FMT("%s%s%s(%.17g, %.17g) = %.17g, error %.3f of the bound", name, suf<T>(), cfg.c_str(), (double)a.wy, (double)a.wx, (double)a.wv, a.worst));
}

// fast_sincos delivers the same two numbers as fast_sin and fast_cos.
template <class T> static void sincos_all(void (*sc)(T, T&, T&), T (*fs)(T), T (*fc)(T)) {
  Source<T> src; src.init(SIN, lits);
  const size_t ne = src.n_enum();
  const uint64_t echunks = (ne + chunk_size - 1) / chunk_size, total = echunks + chunks / 4;
  std::vector<Cells> cells(nthreads);
  std::atomic<uint64_t> next(0), n(0), nbad(0);
  std::vector<std::thread> th;
  for (unsigned i = 0; i < nthreads; ++i)
    th.push_back(std::thread([&, i] {
      for (uint64_t b; (b = next++) < total;) {
        Rng g(seed, 200 + sizeof(T), b);
        uint64_t m = 0;
        for (uint64_t k = 0; k < chunk_size; ++k) {
          if (b < echunks && b * chunk_size + k >= ne) break;
          T x = b < echunks ? src.enumerated(b * chunk_size + k) : src.one(g);
          if (!trig_dom(x)) continue;
          T s = 77, c = 77;
          sc(x, s, c);
          ++m; cells[i].hit(cell(x));
          Judged js = judge<SIN, T>(x, s, NUM), jc = judge<COS, T>(x, c, NUM);
          if ((js.bad || jc.bad || s != fs(x) || c != fc(x)) && nbad++ < 4)
            rep_viol(std::string("fast_sincos") + suf<T>() + cfg, FMT("fast_sincos%s(%.17g) gave %.17g and %.17g; fast_sin gives %.17g, fast_cos %.17g, reference %.17Lg %.17Lg", suf<T>(),
                     (double)x, (double)s, (double)c, (double)fs(x), (double)fc(x), sinl(x), cosl(x)), hexbits(x));
        }
        n += m;
      }
    }));
  for (size_t i = 0; i < th.size(); ++i) th[i].join();
  for (unsigned i = 1; i < nthreads; ++i) cells[0].merge(cells[i]);
  rep_count(std::string("sincos pair ") + suf<T>() + cfg, n);
  rep_cell(std::string("sincos pair ") + suf<T>() + cfg, cells[0].count());
}

static const Unary& unary(const std::string& n) {
  for (int i = 0; i < vdt_n_unary; ++i) if (n == vdt_unary[i].name) return vdt_unary[i];
  fprintf(stderr, "unknown function %s\n", n.c_str());
  exit(3);
}

int main(int argc, char** argv) {
  std::string ids, replay;
  bool dd = true, ff = true;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i], k = a.substr(0, a.find('=')), v = a.find('=') == std::string::npos ? "" : a.substr(a.find('=') + 1);
    if (k == "--id") ids = v;
    else if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--chunks") chunks = strtoull(v.c_str(), 0, 10);
    else if (k == "--stride") stride = strtoull(v.c_str(), 0, 10);
    else if (k == "--threads") nthreads = atoi(v.c_str());
    else if (k == "--lits") lits = read_literals(v);
    else if (k == "--nan") judge_nan = v == "1";
    else if (k == "--special") only_special = v == "1";
    else if (k == "--form") use_arrays = v == "array";
    else if (k == "--turns") turns = v == "1";
    else if (k == "--cfg") cfg = " [" + v + "]";
    else if (k == "--replay") replay = v;
    else if (k == "--types") { dd = v.find('d') != std::string::npos; ff = v.find('f') != std::string::npos; }
    else { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; }
  }
  size_t p = 0;
  while (p < ids.size()) {
    size_t q = ids.find(',', p);
    if (q == std::string::npos) q = ids.size();
    std::string n = ids.substr(p, q - p);
    p = q + 1;
    if (n == "fast_atan2") {
      const Binary* b = 0;
      for (int i = 0; i < vdt_n_binary; ++i) if (n == vdt_binary[i].name) b = &vdt_binary[i];
      if (!replay.empty()) {
        uint64_t y = strtoull(replay.c_str() + 2, 0, 16), x = strtoull(replay.c_str() + replay.find(',') + 3, 0, 16);
        if (replay[0] == 'd') printf("%s(%.17g, %.17g) = %.17g, reference %.21Lg\n", b->name, dbl(y), dbl(x), b->sd(dbl(y), dbl(x)), ref_atan2w(dbl(y), dbl(x)));
        else printf("%sf(%.9g, %.9g) = %.9g, reference %.17g\n", b->name, flt(y), flt(x), b->sf(flt(y), flt(x)), ref_atan2w(flt(y), flt(x)));
        continue;
      }
      const Fn2<double> fd = {b->sd, b->vd};
      const Fn2<float> ffl = {b->sf, b->vf};
      if (dd) atan2_all<double>(fd, "fast_atan2");
      if (ff) atan2_all<float>(ffl, "fast_atan2");
      continue;
    }
    if (n == "fast_sincos") {
      if (dd) sincos_all<double>(vdt_sincos_d, unary("fast_sin").sd, unary("fast_cos").sd);
      if (ff) sincos_all<float>(vdt_sincos_f, unary("fast_sin").sf, unary("fast_cos").sf);
      continue;
    }
    int id = -1;
    for (int i = 0; i < NIDS; ++i) if (n == id_name[i]) id = i;
    const Unary& u = unary(n);
    switch (id) {
#define C(I) case I: run_id<I>(u, dd, ff, replay); break;
      C(EXP) C(LOG) C(SIN) C(COS) C(TAN) C(ASIN) C(ACOS) C(ATAN) C(TANH) C(ISQRT) C(AISQRT) C(INV) C(AINV) C(RISQRT) C(RINV)
      default: fprintf(stderr, "no oracle for %s\n", n.c_str()); return 3;
    }
  }
  rep_done();
  return 0;
}
