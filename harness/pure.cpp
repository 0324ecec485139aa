// Monitor of purity: history, threads, stack and registers, errno, control words, allocation, static data.
// The library under test is a shared object (so that its writable segment can be found).
#include "opts.h"
#include <cerrno>
#include <cfenv>
#include <csetjmp>
#include <csignal>
#include <link.h>
#include <sys/mman.h>
#include <unistd.h>
#include <xmmintrin.h>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
static __thread uint64_t t_allocs = 0;
void* malloc(size_t n) { ++t_allocs; return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { ++t_allocs; return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { ++t_allocs; return __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { ++t_allocs; return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { ++t_allocs; return __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { ++t_allocs; *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
void free(void* p) { __libc_free(p); }
}

// One recorded call of any entry point.
struct Call {
  int fn;            // index in the list of entry points
  bool d;            // double or float
  bool array;
  uint32_t n;
  std::vector<double> xd, yd;
  std::vector<float> xf, yf;
};
static const int MAXARR = 70;
struct Out { double d[MAXARR]; float f[MAXARR]; };
static int n_entries() { return vdt_n_unary + vdt_n_binary + 1; }
static std::string entry_name(const Call& c) {
  std::string s = c.fn < vdt_n_unary ? vdt_unary[c.fn].name : c.fn < vdt_n_unary + vdt_n_binary ? vdt_binary[c.fn - vdt_n_unary].name : "fast_sincos";
  return s + (c.d ? "" : "f") + (c.array ? "v" : "");
}
template <class T> static inline void call_t(const Call& c, const T* x, const T* y, T* o) {
  if (c.fn < vdt_n_unary) {
    const Unary& u = vdt_unary[c.fn];
    if (c.array) Sel<T>::v(u)(c.n, x, o); else o[0] = Sel<T>::s(u)(x[0]);
  } else if (c.fn < vdt_n_unary + vdt_n_binary) {
    const Binary& b = vdt_binary[c.fn - vdt_n_unary];
    if (c.array) Sel<T>::v(b)(c.n, x, y, o); else o[0] = Sel<T>::s(b)(x[0], y[0]);
  }
}
static inline void perform(const Call& c, Out& o) {
  if (c.fn == vdt_n_unary + vdt_n_binary) {
    if (c.d) vdt_sincos_d(c.xd[0], o.d[0], o.d[1]); else vdt_sincos_f(c.xf[0], o.f[0], o.f[1]);
  } else if (c.d) call_t<double>(c, c.xd.data(), c.yd.data(), o.d);
  else call_t<float>(c, c.xf.data(), c.yf.data(), o.f);
}
static inline uint32_t n_out(const Call& c) { return c.fn == vdt_n_unary + vdt_n_binary ? 2 : c.array ? c.n : 1; }
static bool equal(const Call& c, const Out& a, const Out& b) {
  for (uint32_t i = 0; i < n_out(c); ++i) {
    if (c.d ? (bits(a.d[i]) != bits(b.d[i]) && !(a.d[i] != a.d[i] && b.d[i] != b.d[i])) : (bits(a.f[i]) != bits(b.f[i]) && !(a.f[i] != a.f[i] && b.f[i] != b.f[i]))) return false;
  }
  return true;
}
static std::string show(const Call& c, const Out& a, const Out& b) {
  for (uint32_t i = 0; i < n_out(c); ++i) {
    double p = c.d ? a.d[i] : a.f[i], q = c.d ? b.d[i] : b.f[i], x = c.d ? c.xd[c.array ? i : 0] : c.xf[c.array ? i : 0];
    if (p != q && !(p != p && q != q)) return FMT("%.17g at first, %.17g later (output %u, argument %.17g)", p, q, i, x);
  }
  return "sign of zero";
}
static std::vector<Call> work;
static std::vector<Out> first;
static Source<double> srcd[NIDS + 1];
static Source<float> srcf[NIDS + 1];
static int id_of_fn(int fn) { return fn < vdt_n_unary ? id_of(vdt_unary[fn].name) : fn < vdt_n_unary + vdt_n_binary ? NIDS : SIN; }

static Call make_call(Rng& g, int fn) {
  Call c;
  c.fn = fn; c.d = g.u64() & 1;
  c.array = fn < vdt_n_unary + vdt_n_binary && g.below(4) == 0;
  c.n = c.array ? (uint32_t)g.below(MAXARR) : 1;
  int id = id_of_fn(fn);
  uint32_t m = std::max(c.n, 1u);
  for (uint32_t i = 0; i < m; ++i) {
    if (c.d) { c.xd.push_back(g.below(12) ? srcd[id].one(g) : special_value<double>(g)); c.yd.push_back(g.below(12) ? srcd[id].one(g) : special_value<double>(g)); }
    else { c.xf.push_back(g.below(12) ? srcf[id].one(g) : special_value<float>(g)); c.yf.push_back(g.below(12) ? srcf[id].one(g) : special_value<float>(g)); }
  }
  return c;
}
// Fill stack below the caller and the vector registers with a pattern.
__attribute__((noinline)) static void dirty(uint64_t pat) {
  volatile uint64_t a[512] __attribute__((unused));
  for (int i = 0; i < 512; ++i) a[i] = pat;
  asm volatile("movq %0, %%xmm1\n\tpunpcklqdq %%xmm1, %%xmm1\n\tmovdqa %%xmm1, %%xmm2\n\tmovdqa %%xmm1, %%xmm3\n\tmovdqa %%xmm1, %%xmm4\n\t"
               "movdqa %%xmm1, %%xmm5\n\tmovdqa %%xmm1, %%xmm6\n\tmovdqa %%xmm1, %%xmm7\n\tmovdqa %%xmm1, %%xmm8\n\tmovdqa %%xmm1, %%xmm9\n\t"
               "movdqa %%xmm1, %%xmm10\n\tmovdqa %%xmm1, %%xmm11\n\tmovdqa %%xmm1, %%xmm12\n\tmovdqa %%xmm1, %%xmm13\n\tmovdqa %%xmm1, %%xmm14\n\tmovdqa %%xmm1, %%xmm15\n\tmovdqa %%xmm1, %%xmm0"
               : : "r"(pat) : "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15", "memory");
}
static inline uint16_t x87cw() { uint16_t w; asm volatile("fnstcw %0" : "=m"(w)); return w; }

// Calls whose errno is examined: fast functions, asin and acos only in their domain, since libm's square root sets errno.
static bool errno_claimed(const Call& c) {
  int id = id_of_fn(c.fn);
  if (entry_name(c).compare(0, 5, "fast_") != 0) return false;
  for (uint32_t i = 0; i < std::max(c.n, 1u); ++i) {
    double x = c.d ? c.xd[i] : c.xf[i];
    if ((id == ASIN || id == ACOS) && (x > 1 || x < -1)) return false;
  }
  return true;
}
static std::string describe(const Call& c) {
  return entry_name(c) + FMT(" size %u, first argument %.17g", c.n, c.d ? c.xd[0] : c.xf[0]);
}

// Calls of array functions on long arrays.
struct Long {
  int fn; bool d; uint32_t n;
  std::vector<double> xd, yd, od; std::vector<float> xf, yf, of;
  std::string name() const { return std::string(fn < vdt_n_unary ? vdt_unary[fn].name : vdt_binary[fn - vdt_n_unary].name) + (d ? "v" : "fv"); }
  std::string text() const { return name() + FMT(" size %u", n); }
};
static std::vector<Long> longs;
template <class T> static void long_t(const Long& l, const T* x, const T* y, T* o) {
  if (l.fn < vdt_n_unary) Sel<T>::v(vdt_unary[l.fn])(l.n, x, o); else Sel<T>::v(vdt_binary[l.fn - vdt_n_unary])(l.n, x, y, o);
}
static void perform(const Long& l, double* od, float* of) {
  if (l.d) long_t<double>(l, l.xd.data(), l.yd.data(), od); else long_t<float>(l, l.xf.data(), l.yf.data(), of);
}
static bool equal(const Long& l, const double* od, const float* of) {
  for (uint32_t i = 0; i < l.n; ++i)
    if (l.d ? bits(l.od[i]) != bits(od[i]) && !(od[i] != od[i] && l.od[i] != l.od[i]) : bits(l.of[i]) != bits(of[i]) && !(of[i] != of[i] && l.of[i] != l.of[i])) return false;
  return true;
}
static bool errno_claimed(const Long& l) {
  const int id = id_of_fn(l.fn);
  if (l.name().compare(0, 5, "fast_") != 0) return false;
  if (id == ASIN || id == ACOS) for (uint32_t i = 0; i < l.n; ++i) if (std::fabs(l.d ? l.xd[i] : l.xf[i]) > 1) return false;
  return true;
}
static void make_longs(Rng& g) {
  for (int fn = 0; fn < vdt_n_unary + vdt_n_binary; ++fn)
    for (int k = 0; k < 6; ++k) {
      Long l;
      l.fn = fn; l.d = k & 1;
      l.n = k < 4 ? MAXARR + (uint32_t)g.below(k < 2 ? 1000 : 9000) : 10000 + (uint32_t)g.below(g.below(8) ? 60000 : 1100000);
      const int id = id_of_fn(fn);
      if (l.d) { l.xd.resize(l.n); l.yd.resize(l.n); l.od.resize(l.n); } else { l.xf.resize(l.n); l.yf.resize(l.n); l.of.resize(l.n); }
      const bool inside = g.below(2);  // only arguments of [-1, 1] for asin and acos
      for (uint32_t i = 0; i < l.n; ++i) {
        if (l.d) {
          l.xd[i] = srcd[id].one(g); l.yd[i] = srcd[id].one(g);
          if (inside && (id == ASIN || id == ACOS) && !(std::fabs(l.xd[i]) <= 1)) l.xd[i] = g.uni(-1, 1);
        } else {
          l.xf[i] = srcf[id].one(g); l.yf[i] = srcf[id].one(g);
          if (inside && (id == ASIN || id == ACOS) && !(std::fabs(l.xf[i]) <= 1)) l.xf[i] = (float)g.uni(-1, 1);
        }
      }
      longs.push_back(std::move(l));
    }
}

// ---- writable data of the shared object -----------------------------------------------
struct Seg { char* a; size_t n; };
static std::vector<Seg> segs;
static int find_segs(struct dl_phdr_info* i, size_t, void*) {
  if (!strstr(i->dlpi_name, "libundertest")) return 0;
  long ps = sysconf(_SC_PAGESIZE);
  for (int k = 0; k < i->dlpi_phnum; ++k) {
    const ElfW(Phdr)& p = i->dlpi_phdr[k];
    if (p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue;
    uintptr_t lo = (i->dlpi_addr + p.p_vaddr) & ~(uintptr_t)(ps - 1), hi = (i->dlpi_addr + p.p_vaddr + p.p_memsz + ps - 1) & ~(uintptr_t)(ps - 1);
    segs.push_back(Seg{(char*)lo, hi - lo});
  }
  return 0;
}
static sigjmp_buf jb;
static volatile sig_atomic_t armed = 0;
static void* volatile fault_at = 0;
static void on_fault(int sig, siginfo_t* si, void*) {
  if (!armed) { signal(sig, SIG_DFL); raise(sig); return; }
  fault_at = si->si_addr;
  siglongjmp(jb, 1);
}

// ---- arguments that resemble another one ------------------------------------------------
template <class T> static T resembling(Rng& g, T x) {
  typedef typename Fmt<T>::U U;
  switch (g.below(12)) {
    case 0: return frombits((U)(bits(x) + 1), T());
    case 1: return frombits((U)(bits(x) - 1), T());
    case 2: return -x;
    case 3: return sizeof(T) == 8 ? (T)(float)x : frombits((U)(bits(x) & ~(U)0xfff), T());
    case 4: return frombits((U)(bits(x) ^ ((U)g.u64() >> (sizeof(T) * 8 - 1 - g.below(Fmt<T>::MB)))), T());  // other low bits
    case 5: return x * 2;
    case 6: return x / 2;
    case 7: return x + (T)(6.283185307179586 * (double)(1 + g.below(3)));
    case 8: return 1 / x;
    case 9: return (T)floor((double)x);
    case 10: return frombits((U)(bits(x) ^ ((U)1 << g.below(sizeof(T) * 8))), T());
    default: return g.below(2) ? (T)0 : (T)1;
  }
}
template <class T> static void resemble_all(Rng& g, std::vector<T>& x, std::vector<T>& y) {
  unsigned which = (unsigned)g.below(3);  // the first argument, the second, both
  for (size_t i = 0; i < x.size(); ++i) {
    if (which != 1) x[i] = resembling<T>(g, x[i]);
    if (which != 0) y[i] = resembling<T>(g, y[i]);
  }
  if (which == 2 && g.below(3) == 0) x.swap(y);
}

int main(int argc, char** argv) {
  parse_opts(argc, argv);
  for (int i = 0; i <= NIDS; ++i) { srcd[i].init(i, o_lits); srcf[i].init(i, o_lits); }
  Rng g(o_seed, 900, 0);
  const int per = (int)o_chunks;
  for (int f = 0; f < n_entries(); ++f) for (int k = 0; k < per; ++k) work.push_back(make_call(g, f));
  const size_t N = work.size();
  make_longs(g);
  uint32_t longest = 0;
  for (size_t i = 0; i < longs.size(); ++i) longest = std::max(longest, longs[i].n);

  // Static data first, before anything of the library has run: its writable segment is made read-only.
  dl_iterate_phdr(find_segs, 0);
  if (segs.empty()) { fprintf(stderr, "no writable segment of the library found\n"); return 3; }
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSEGV, &sa, 0);
  for (size_t i = 0; i < segs.size(); ++i) if (mprotect(segs[i].a, segs[i].n, PROT_READ)) { perror("mprotect"); return 3; }
  first.resize(N);
  memset(first.data(), 0, N * sizeof(Out));
  size_t static_writes = 0;
  for (size_t i = 0; i < N; ++i) {
    if (sigsetjmp(jb, 1) == 0) { armed = 1; perform(work[i], first[i]); armed = 0; }
    else {
      armed = 0;
      ++static_writes;
      bool ours = false;
      for (size_t k = 0; k < segs.size(); ++k) ours |= (char*)fault_at >= segs[k].a && (char*)fault_at < segs[k].a + segs[k].n;
      viol("shared memory " + entry_name(work[i]), describe(work[i]) + (ours ? " writes to static data of the library" : FMT(" faults at %p", fault_at)), "call");
    }
  }
  for (size_t i = 0; i < longs.size(); ++i) {
    if (sigsetjmp(jb, 1) == 0) { armed = 1; perform(longs[i], longs[i].od.data(), longs[i].of.data()); armed = 0; }
    else { armed = 0; ++static_writes; viol("shared memory " + longs[i].name(), longs[i].text() + FMT(" writes to static data of the library or faults at %p", fault_at), "call"); }
  }
  for (size_t i = 0; i < segs.size(); ++i) mprotect(segs[i].a, segs[i].n, PROT_READ | PROT_WRITE);
  rep_count("calls with static data write-protected", N);
  rep_count("calls on long arrays with static data write-protected", longs.size());
  if (static_writes) {
    for (size_t i = 0; i < N; ++i) perform(work[i], first[i]);
    for (size_t i = 0; i < longs.size(); ++i) perform(longs[i], longs[i].od.data(), longs[i].of.data());
  }

  std::vector<char> seen(n_entries() * 4, 0);
  for (size_t i = 0; i < N; ++i) seen[work[i].fn * 4 + work[i].d * 2 + work[i].array] = 1;
  uint64_t distinct = 0;
  for (size_t i = 0; i < seen.size(); ++i) distinct += seen[i];
  rep_cell("entry points in the workload", distinct);

  // Random orders, dirty stack and registers, raised flags; errno, control words, allocations around each call.
  std::vector<uint32_t> ord(N);
  for (size_t i = 0; i < N; ++i) ord[i] = (uint32_t)i;
  uint64_t n_env = 0, n_hist = 0;
  static const uint64_t pats[] = {0, ~0ull, 0x7ff8000000000000ull, 0x7fc000007fc00000ull, 0x3ff0000000000000ull, 0x7ff0000000000001ull, 0xdeadbeefcafebabeull, 1ull};
  for (int pass = 0; pass < 6; ++pass) {
    for (size_t i = N - 1; i > 0; --i) std::swap(ord[i], ord[g.below(i + 1)]);
    for (size_t i = 0; i < N; ++i) {
      const Call& c = work[ord[i]];
      Out o;
      memset(&o, 0, sizeof o);
      uint64_t pat = pats[g.below(8)];
      int rep = 1 + (int)g.below(2);
      for (int r = 0; r < rep; ++r) {
        if (pass & 1) feraiseexcept(FE_ALL_EXCEPT & ~FE_INEXACT); else feclearexcept(FE_ALL_EXCEPT);
        errno = 12345;
        uint64_t a0 = t_allocs;
        uint32_t m0 = _mm_getcsr() & ~0x3fu;
        uint16_t w0 = x87cw();
        dirty(pat);
        perform(c, o);
        uint32_t m1 = _mm_getcsr() & ~0x3fu;
        int e = errno;
        uint16_t w1 = x87cw();
        ++n_hist;
        if (m0 != m1 || w0 != w1) { viol("control state " + entry_name(c), describe(c) + FMT(" changed the floating point control state from %x/%x to %x/%x", m0, w0, m1, w1), "call"); _mm_setcsr(m0); }
        if (t_allocs != a0) viol("allocation " + entry_name(c), describe(c) + " allocated memory", "call");
        if (errno_claimed(c)) { ++n_env; if (e != 12345) viol("errno " + entry_name(c), describe(c) + FMT(" changed errno to %d", e), "call"); }
        if (!equal(c, first[ord[i]], o)) viol("history " + entry_name(c), describe(c) + ": result depends on earlier calls or on stack and registers: " + show(c, first[ord[i]], o), "call");
      }
    }
  }
  rep_count("calls in shuffled order with dirty stack and registers", n_hist);

  // The same for long arrays, in random order and then by several threads at once.
  {
    std::vector<double> od(longest); std::vector<float> of(longest);
    uint64_t n_long = 0;
    for (size_t k = 0; k < 2 * longs.size(); ++k) {
      const Long& l = longs[g.below(longs.size())];
      const bool claimed = errno_claimed(l);
      errno = 12345;
      const uint64_t a0 = t_allocs;
      const uint32_t m0 = _mm_getcsr() & ~0x3fu;
      const uint16_t w0 = x87cw();
      dirty(pats[g.below(8)]);
      perform(l, od.data(), of.data());
      const uint32_t m1 = _mm_getcsr() & ~0x3fu;
      const int e = errno;
      const uint64_t a1 = t_allocs;
      const uint16_t w1 = x87cw();
      ++n_long;
      if (m0 != m1 || w0 != w1) { viol("control state " + l.name(), l.text() + FMT(" changed the floating point control state from %x/%x to %x/%x", m0, w0, m1, w1), "call"); _mm_setcsr(m0); }
      if (a1 != a0) viol("allocation " + l.name(), l.text() + " allocated memory", "call");
      if (claimed) { ++n_env; if (e != 12345) viol("errno " + l.name(), l.text() + FMT(" changed errno to %d", e), "call"); }
      if (!equal(l, od.data(), of.data())) viol("history " + l.name(), l.text() + ": result depends on earlier calls or on stack and registers", "call");
    }
    rep_count("calls on long arrays in random order", n_long);
    std::atomic<uint64_t> n_par(0);
    std::vector<std::thread> th;
    for (unsigned t = 0; t < 6; ++t)
      th.push_back(std::thread([&, t] {
        Rng h(o_seed, 930, t);
        std::vector<double> pd(longest); std::vector<float> pf(longest);
        for (size_t k = 0; k < longs.size(); ++k) {
          const Long& l = longs[h.below(3) ? k : h.below(longs.size())];  // mostly the same call as the other threads
          perform(l, pd.data(), pf.data());
          ++n_par;
          if (!equal(l, pd.data(), pf.data())) viol("threads " + l.name(), l.text() + ": other result with 6 threads", "call");
        }
      }));
    for (size_t t = 0; t < th.size(); ++t) th[t].join();
    rep_count("calls on long arrays in 6 threads", n_par);
  }

  // Each call right after calls of the same function with arguments that resemble its own, scalar and array mixed.
  uint64_t n_near = 0;
  for (size_t i = 0; i < N; ++i) {
    const Call& c = work[i];
    Out o;
    memset(&o, 0, sizeof o);
    for (int r = 0; r < 3; ++r) {
      Call before = c;
      if (c.d) resemble_all<double>(g, before.xd, before.yd); else resemble_all<float>(g, before.xf, before.yf);
      if (before.array && g.below(3) == 0) before.array = false;
      else if (!before.array && g.below(3) == 0 && c.fn < vdt_n_unary + vdt_n_binary) { before.array = true; before.n = 1; }
      perform(before, o);
      if (r == 2 && g.below(2)) { before.array = c.array; before.n = c.n; perform(before, o); }
      perform(c, o);
      ++n_near;
      if (!equal(c, first[i], o)) { viol("history " + entry_name(c), describe(c) + ": result depends on the call before it: " + show(c, first[i], o), "call"); break; }
    }
  }
  rep_count("calls right after a call with resembling arguments", n_near);

  // Many calls in a row.
  uint64_t n_row = 0;
  for (int f = 0; f < n_entries(); ++f)
    for (int d = 0; d < 2; ++d) {
      size_t i = 0;
      for (i = g.below(per); i < (size_t)per && (work[f * (size_t)per + i].d != (d == 1) || work[f * (size_t)per + i].array); ++i) {}
      if (i >= (size_t)per) continue;
      i += f * (size_t)per;
      Out o;
      memset(&o, 0, sizeof o);
      for (uint64_t k = 0; k < 1200000; ++k) {
        perform(work[i], o);
        ++n_row;
        if (!equal(work[i], first[i], o)) { viol("history " + entry_name(work[i]), describe(work[i]) + FMT(": result changes in repetition %llu: ", (unsigned long long)k) + show(work[i], first[i], o), "call"); break; }
      }
    }
  rep_count("calls repeated in a row", n_row);

  // The other rounding modes and flush modes stay as they were set.
  uint64_t n_modes = 0, modes_seen = 0;
  for (unsigned mode = 1; mode < 8; ++mode) {
    uint32_t csr = 0x1f80 | (mode & 3) << 13 | (mode & 4 ? 0x8040 : 0);
    ++modes_seen;
    for (size_t i = 0; i < N; i += 3) {
      Out o;
      _mm_setcsr(csr);
      perform(work[i], o);
      uint32_t after = _mm_getcsr();
      _mm_setcsr(0x1f80);
      ++n_modes;
      if ((after & ~0x3fu) != csr) viol("control state " + entry_name(work[i]), describe(work[i]) + FMT(" changed the control register from %x to %x", csr, after), "call");
    }
  }
  rep_count("calls in other rounding and flush modes", n_modes);
  rep_cell("rounding and flush modes", modes_seen);

  // 1..8 threads on the same inputs.
  std::atomic<uint64_t> n_thr(0);
  for (unsigned nt = 1; nt <= 8; ++nt) {
    std::vector<std::thread> th;
    for (unsigned t = 0; t < nt; ++t)
      th.push_back(std::thread([&, t, nt] {
        Rng h(o_seed, 910 + nt, t);
        Out o;
        memset(&o, 0, sizeof o);
        for (size_t k = 0; k < N; ++k) {
          size_t i = h.below(4) ? h.below(N) : k;
          perform(work[i], o);
          if (!equal(work[i], first[i], o)) viol("threads " + entry_name(work[i]), describe(work[i]) + FMT(": other result with %u threads: ", nt) + show(work[i], first[i], o), "call");
        }
        n_thr += N;
      }));
    for (size_t t = 0; t < th.size(); ++t) th[t].join();
  }
  rep_count("calls in 1 to 8 threads", n_thr);
  size_t bytes = 0;
  for (size_t i = 0; i < segs.size(); ++i) bytes += segs[i].n;
  rep_sample(FMT("%zu different calls, %zu bytes of static data watched, %llu errno observations", N, bytes, (unsigned long long)n_env));
  rep_done();
  return 0;
}
