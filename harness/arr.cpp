// Monitor of array functions against the scalar function of the same name, bit by bit.
#include "opts.h"

template <class T> static inline bool same(T a, T b) { return bits(a) == bits(b) || (a != a && b != b); }

static std::vector<uint32_t> sizes_large;

// One call: arrays at given element offsets inside 64-byte aligned storage.
struct Buf {
  std::vector<char> raw;
  template <class T> T* at(size_t n, unsigned off) {
    raw.resize((n + 64) * sizeof(T) + 128);
    uintptr_t p = (uintptr_t)raw.data();
    p = (p + 63) & ~(uintptr_t)63;
    return (T*)p + off;
  }
};
// Arrays of n elements beside each other in one buffer: immediately, with a small gap or a multiple of 4096 bytes apart.
template <class T> static size_t step(Rng& g, size_t n) {
  switch (g.below(4)) {
    case 0: return n + g.below(9);
    case 1: return (n * sizeof(T) + 4095) / 4096 * 4096 / sizeof(T);
    default: return n;
  }
}
template <class T> static T value(Rng& g, const Source<T>& src, int style) {
  switch (style) {
    case 0: return src.one(g);
    case 1: return g.below(4) ? src.one(g) : special_value<T>(g);
    case 2: return src.critical(g);
    case 3: return src.randexp(g);
    default: return frombits((typename Fmt<T>::U)g.u64(), T());
  }
}
// What the outputs hold before the call: a fixed number, 0, the input, NaN or what the last call left there.
template <class T> static inline T before(unsigned k, T in, T old) { return k == 0 ? (T)0 : k == 1 ? in : k == 2 ? std::numeric_limits<T>::quiet_NaN() : k == 3 ? old : (T)77; }

struct Acc { uint64_t n, calls; Cells cells; Acc() : n(0), calls(0) {} };

template <class T> static void call1(const Unary& u, const Source<T>& src, Rng& g, uint32_t n, unsigned oi, unsigned oo, int style, Acc& a, Buf& bi, Buf& bo) {
  T* in = bi.at<T>(n, oi);
  T* out = bo.at<T>(n, oo);
  if (n && n < 30000 && g.below(3) == 0) {
    const size_t s = step<T>(g, n);
    in = bi.at<T>(n + s, oi); out = in + s;
    if (g.below(2)) std::swap(in, out);
  }
  const unsigned k = n > 30000 ? 9 : (unsigned)g.below(8);
  for (uint32_t i = 0; i < n; ++i) { in[i] = value<T>(g, src, style); out[i] = before<T>(k, in[i], out[i]); }
  Sel<T>::v(u)(n, in, out);
  ++a.calls; a.n += n;
  a.cells.hit(((n % 64) | oi << 6 | oo << 10 | (n > 64 ? 1u << 14 : 0) | (n > 4096 ? 1u << 15 : 0) | style << 16) & 0xfffff);
  T (*f)(T) = Sel<T>::s(u);
  for (uint32_t i = 0; i < n; ++i) {
    T r = f(in[i]);
    if (!same(out[i], r)) {
      viol(std::string(u.name) + Sel<T>::suf() + "v", FMT("%s%sv(size %u, offsets %u and %u): element %u for %.17g is %.17g (%s), the scalar function gives %.17g (%s)", u.name, Sel<T>::suf(), n, oi, oo, i,
           (double)in[i], (double)out[i], hexb(out[i]).c_str(), (double)r, hexb(r).c_str()), FMT("size=%u,x=%s", n, hexb(in[i]).c_str()));
      break;
    }
  }
}
template <class T> static void call2(const Binary& u, const Source<T>& src, Rng& g, uint32_t n, unsigned oi, unsigned oj, unsigned oo, int style, Acc& a, Buf& bi, Buf& bj, Buf& bo) {
  T* in = bi.at<T>(n, oi);
  T* jn = g.below(12) ? bj.at<T>(n, oj) : in;  // now and then one array is both inputs
  T* out = bo.at<T>(n, oo);
  if (n && n < 30000 && jn != in && g.below(3) == 0) {
    const size_t s = step<T>(g, n);
    T* p = bi.at<T>(n + 2 * s, oi);
    T* q[3] = {p, p + s, p + 2 * s};
    for (int i = 2; i > 0; --i) std::swap(q[i], q[g.below(i + 1)]);
    in = q[0]; jn = q[1]; out = q[2];
  }
  const unsigned k = n > 30000 ? 9 : (unsigned)g.below(8);
  for (uint32_t i = 0; i < n; ++i) { in[i] = value<T>(g, src, style); jn[i] = g.below(4) ? value<T>(g, src, style) : in[i] * (T)g.uni(-2, 2); out[i] = before<T>(k, in[i], out[i]); }
  Sel<T>::v(u)(n, in, jn, out);
  ++a.calls; a.n += n;
  a.cells.hit(((n % 64) | oi << 6 | oo << 10 | (n > 64 ? 1u << 14 : 0) | (n > 4096 ? 1u << 15 : 0) | style << 16) & 0xfffff);
  for (uint32_t i = 0; i < n; ++i) {
    T r = Sel<T>::s(u)(in[i], jn[i]);
    if (!same(out[i], r)) {
      viol(std::string(u.name) + Sel<T>::suf() + "v", FMT("%s%sv(size %u): element %u for (%.17g, %.17g) is %.17g, the scalar function gives %.17g", u.name, Sel<T>::suf(), n, i,
           (double)in[i], (double)jn[i], (double)out[i], (double)r), FMT("size=%u,y=%s,x=%s", n, hexb(in[i]).c_str(), hexb(jn[i]).c_str()));
      break;
    }
  }
}
// body(rng, n, oi, oj, oo, style, thread)
typedef std::function<void(Rng&, uint32_t, unsigned, unsigned, unsigned, int, unsigned)> Call;
static void sweep(uint64_t stream, const Call& call) {
  // 1. every size 0..300, 2. every pair of offsets, 3. large sizes, 4. bulk values
  par(301 + 81 + sizes_large.size() + o_chunks, [&](uint64_t j, unsigned t) {
    Rng g(o_seed, stream, j);
    if (j < 301) {
      for (int r = 0; r < 4; ++r) call(g, (uint32_t)j, g.below(9), g.below(9), g.below(9), (int)g.below(5), t);
      return;
    }
    j -= 301;
    if (j < 81) {
      for (int r = 0; r < 3; ++r) call(g, 1 + (uint32_t)g.below(140), (unsigned)(j / 9), (unsigned)g.below(9), (unsigned)(j % 9), (int)g.below(5), t);
      return;
    }
    j -= 81;
    if (j < sizes_large.size()) { call(g, sizes_large[j], g.below(9), g.below(9), g.below(9), 1, t); return; }
    call(g, 20000 + (uint32_t)g.below(64), g.below(9), g.below(9), g.below(9), (int)g.below(5), t);
  });
}
template <class T> static void unary(const Unary& u, int k) {
  Source<T> src; src.init(id_of(u.name), o_lits);
  std::vector<Acc> a(o_threads);
  std::vector<Buf> bi(o_threads), bo(o_threads);
  sweep(1000 + 2 * k + (sizeof(T) == 8), [&](Rng& g, uint32_t n, unsigned oi, unsigned, unsigned oo, int style, unsigned t) { call1<T>(u, src, g, n, oi, oo, style, a[t], bi[t], bo[t]); });
  // null arrays with size 0
  Sel<T>::v(u)(0, (const T*)0, (T*)0);
  for (unsigned i = 1; i < o_threads; ++i) { a[0].n += a[i].n; a[0].calls += a[i].calls; a[0].cells.merge(a[i].cells); }
  rep_count(FMT("elements %s%sv", u.name, Sel<T>::suf()), a[0].n);
  rep_cell(FMT("calls by shape %s%sv", u.name, Sel<T>::suf()), a[0].cells.count());
}
template <class T> static void binary(const Binary& u, int k) {
  Source<T> src; src.init(NIDS, o_lits);
  std::vector<Acc> a(o_threads);
  std::vector<Buf> bi(o_threads), bj(o_threads), bo(o_threads);
  sweep(2000 + 2 * k + (sizeof(T) == 8), [&](Rng& g, uint32_t n, unsigned oi, unsigned oj, unsigned oo, int style, unsigned t) { call2<T>(u, src, g, n, oi, oj, oo, style, a[t], bi[t], bj[t], bo[t]); });
  Sel<T>::v(u)(0, (const T*)0, (const T*)0, (T*)0);
  for (unsigned i = 1; i < o_threads; ++i) { a[0].n += a[i].n; a[0].calls += a[i].calls; a[0].cells.merge(a[i].cells); }
  rep_count(FMT("elements %s%sv", u.name, Sel<T>::suf()), a[0].n);
  rep_cell(FMT("calls by shape %s%sv", u.name, Sel<T>::suf()), a[0].cells.count());
}
int main(int argc, char** argv) {
  parse_opts(argc, argv);
  Rng g(o_seed, 999, 0);
  for (int k = 9; k <= 17; ++k) for (int d = -2; d <= 2; ++d) sizes_large.push_back((1u << k) + d);
  for (int i = 0; i < 12; ++i) sizes_large.push_back(300 + (uint32_t)g.below(5000));
  for (int i = 0; i < 4; ++i) sizes_large.push_back(300 + (uint32_t)g.below(200000));
  sizes_large.push_back(1000); sizes_large.push_back(10000); sizes_large.push_back(100000); sizes_large.push_back(1000000 + (uint32_t)g.below(64));
  // integers that occur in the generator are sizes to try
  for (size_t i = 0; i < o_lits.size(); ++i) {
    double d = o_lits[i];
    if (d == floor(d) && d > 300 && d < 3e6) for (int e = -1; e <= 1; ++e) sizes_large.push_back((uint32_t)d + e);
  }
  std::sort(sizes_large.begin(), sizes_large.end());
  sizes_large.erase(std::unique(sizes_large.begin(), sizes_large.end()), sizes_large.end());
  for (int i = 0; i < vdt_n_unary; ++i) { unary<double>(vdt_unary[i], i); unary<float>(vdt_unary[i], i); }
  for (int i = 0; i < vdt_n_binary; ++i) { binary<double>(vdt_binary[i], i); binary<float>(vdt_binary[i], i); }
  rep_sample(FMT("%zu larger sizes from %u to %u", sizes_large.size(), sizes_large.front(), sizes_large.back()));
  rep_done();
  return 0;
}
