// Options shared by the monitors.
#ifndef VMON_OPTS_H
#define VMON_OPTS_H
#include "gen.h"
#include "report.h"
#include "table.h"
#include <atomic>
#include <cstdlib>
#include <functional>
#include <thread>

static uint64_t o_seed = 1, o_chunks = 64, o_stride = 1;
static unsigned o_threads = 8;
static std::vector<double> o_lits;
static std::string o_cfg, o_mode, o_only, o_replay, o_dir = ".";

static inline void parse_opts(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i], k = a.substr(0, a.find('=')), v = a.find('=') == std::string::npos ? "" : a.substr(a.find('=') + 1);
    if (k == "--seed") o_seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--chunks") o_chunks = strtoull(v.c_str(), 0, 10);
    else if (k == "--stride") o_stride = strtoull(v.c_str(), 0, 10);
    else if (k == "--threads") o_threads = atoi(v.c_str());
    else if (k == "--lits") o_lits = read_literals(v);
    else if (k == "--cfg") o_cfg = " [" + v + "]";
    else if (k == "--mode") o_mode = v;
    else if (k == "--only") o_only = v;
    else if (k == "--replay") o_replay = v;
    else if (k == "--dir") o_dir = v;
    else { fprintf(stderr, "bad option %s\n", a.c_str()); exit(3); }
  }
}

// Runs body(job, thread) for all jobs in o_threads threads.
static inline void par(uint64_t jobs, const std::function<void(uint64_t, unsigned)>& body) {
  std::atomic<uint64_t> next(0);
  std::vector<std::thread> th;
  for (unsigned i = 0; i < o_threads; ++i)
    th.push_back(std::thread([&, i] { for (;;) { uint64_t j = next++; if (j >= jobs) break; body(j, i); } }));
  for (size_t i = 0; i < th.size(); ++i) th[i].join();
}

template <class T> struct Sel;
template <> struct Sel<double> {
  static fn1d s(const Unary& u) { return u.sd; } static arr1d v(const Unary& u) { return u.vd; }
  static fn2d s(const Binary& u) { return u.sd; } static arr2d v(const Binary& u) { return u.vd; }
  static const char* suf() { return ""; }
};
template <> struct Sel<float> {
  static fn1f s(const Unary& u) { return u.sf; } static arr1f v(const Unary& u) { return u.vf; }
  static fn2f s(const Binary& u) { return u.sf; } static arr2f v(const Binary& u) { return u.vf; }
  static const char* suf() { return "f"; }
};
static inline std::string hexb(double x) { return FMT("d:%016llx", (unsigned long long)bits(x)); }
static inline std::string hexb(float x) { return FMT("f:%08x", bits(x)); }

// Oracle identity of a table entry by name, libm names included; NIDS if there is none.
static inline int id_of(const char* name) {
  for (int i = 0; i < NIDS; ++i) if (!strcmp(name, id_name[i])) return i;
  for (int i = 0; i < NIDS; ++i) if (!strncmp(id_name[i], "fast_", 5) && !strcmp(name, id_name[i] + 5)) return i;
  return NIDS;
}
static inline bool is_fast(const char* name) { return !strncmp(name, "fast_", 5); }

// A few reports per key are enough.
struct Limiter {
  std::mutex m; std::vector<std::pair<std::string, int> > n;
  bool ok(const std::string& k, int lim = 4) {
    std::lock_guard<std::mutex> l(m);
    for (size_t i = 0; i < n.size(); ++i) if (n[i].first == k) return n[i].second++ < lim;
    n.push_back(std::make_pair(k, 1));
    return true;
  }
};
static Limiter limiter;
static inline void viol(const std::string& key, const std::string& text, const std::string& replay) {
  if (limiter.ok(key)) rep_viol(key + o_cfg, text, replay);
}
template <class T> static inline T special_value(Rng& g) {
  typedef std::numeric_limits<T> L;
  T v;
  switch (g.below(12)) {
    case 0: v = 0; break;
    case 1: v = L::infinity(); break;
    case 2: v = L::quiet_NaN(); break;
    case 3: v = L::denorm_min(); break;
    case 4: v = L::min(); break;
    case 5: v = L::max(); break;
    case 6: v = 1; break;
    case 7: v = L::epsilon(); break;
    case 8: v = (T)1e9; break;
    case 9: v = (T)0.5; break;
    case 10: v = step(L::min(), -(int64_t)g.below(1 << 20)); break;
    default: v = (T)3; break;
  }
  return g.u64() & 1 ? -v : v;
}
#endif
