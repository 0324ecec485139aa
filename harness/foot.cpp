// Monitor of the memory touched by array functions: arrays against inaccessible pages,
// read-only inputs, guard words, poisoned outputs. One thread: faults are caught per call.
#include "opts.h"
#include <csetjmp>
#include <csignal>
#include <sys/mman.h>
#include <unistd.h>

static sigjmp_buf jb;
static volatile sig_atomic_t armed = 0;
static void* volatile fault_at = 0;
static void on_fault(int sig, siginfo_t* si, void*) {
  if (!armed) { signal(sig, SIG_DFL); raise(sig); return; }
  fault_at = si->si_addr;
  siglongjmp(jb, 1);
}

// usable pages between two inaccessible ones
struct Arena {
  char* base; size_t len;
  Arena() : base(0), len(0) {}
  void init(size_t bytes) {
    long ps = sysconf(_SC_PAGESIZE);
    len = (bytes + ps - 1) / ps * ps;
    base = (char*)mmap(0, len + 2 * ps, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) { perror("mmap"); exit(3); }
    base += ps;
    prot(PROT_READ | PROT_WRITE);
  }
  void prot(int p) { if (mprotect(base, len, p)) { perror("mprotect"); exit(3); } }
  // array of n elements flush with the end (or the beginning) of the usable pages, moved by off elements inwards
  template <class T> T* place(uint32_t n, bool at_end, unsigned off) { return at_end ? (T*)(base + len) - n - off : (T*)base + off; }
};
static const unsigned char G = 0xA5;

static const uint32_t MAXN = 1100000;
static Arena A, B, O;
static std::vector<char> ref, ref2;
static uint64_t calls = 0, bytes_checked = 0;
static Cells shapes;

// call(in1, in2, out): returns false when a fault was caught.
template <class T, class F> static bool guarded(F f) {
  if (sigsetjmp(jb, 1) == 0) { armed = 1; f(); armed = 0; return true; }
  armed = 0;
  return false;
}
template <class T> static const char* where(const T* p, uint32_t n, const Arena& a) {
  char* f = (char*)fault_at;
  if (f >= a.base && f < a.base + a.len) return f >= (const char*)p && f < (const char*)(p + n) ? "inside the array (write to an input)" : "in the page of the array, outside it (write)";
  if (f >= a.base + a.len && f < a.base + a.len + 4096) return "after the end";
  if (f < a.base && f >= a.base - 4096) return "before the beginning";
  return 0;
}

// One shape: two runs with different poison.
template <class T> static void shape(const char* name, bool two, std::function<void(uint32_t, const T*, const T*, T*)> call, Rng& g, const std::vector<T>& vals,
                                     uint32_t n, bool end_in, bool end_out, unsigned offi, unsigned offo) {
  std::string key = std::string(name) + Sel<T>::suf() + "v";
  std::string what = FMT("%s(size %u, input at %s, output at %s)", key.c_str(), n, end_in ? "end of page" : "start of page", end_out ? "end of page" : "start of page");
  T* in = A.place<T>(n, end_in, offi);
  T* in2 = B.place<T>(n, end_in, offi);
  T* out = O.place<T>(n, end_out, offo);
  // the part of the arenas that is prepared and examined: the array and up to 4096 bytes on either side
  char* lo = std::max(O.base, (char*)out - 4096);
  char* hi = std::min(O.base + O.len, (char*)(out + n) + 4096);
  A.prot(PROT_READ | PROT_WRITE); B.prot(PROT_READ | PROT_WRITE);
  memset(std::max(A.base, (char*)in - 256), G, std::min(A.base + A.len, (char*)(in + n) + 256) - std::max(A.base, (char*)in - 256));
  for (uint32_t i = 0; i < n; ++i) { in[i] = vals[g.below(vals.size())]; in2[i] = vals[g.below(vals.size())]; }
  ref.assign((char*)in, (char*)(in + n));
  ref2.assign((char*)in2, (char*)(in2 + n));
  A.prot(PROT_READ); B.prot(PROT_READ);
  std::vector<T> first;
  for (int run = 0; run < 2; ++run) {
    memset(lo, G, hi - lo);
    T poison = run ? (T)-7.77e7 : frombits((typename Fmt<T>::U)0x7ff4dead7fa4beefULL, T());
    for (uint32_t i = 0; i < n; ++i) memcpy(&out[i], &poison, sizeof(T));
    if (!guarded<T>([&] { call(n, in, in2, out); })) {
      const char* w = where(in, n, A);
      const char* role = "input";
      if (!w && two) { w = where(in2, n, B); role = "second input"; }
      if (!w) { w = where(out, n, O); role = "output"; }
      viol(key, what + ": memory fault " + (w ? std::string(w) + " of the " + role : FMT("at %p, outside all arrays", fault_at)), FMT("size=%u", n));
      return;
    }
    ++calls;
    bytes_checked += hi - lo;
    for (char* p = lo; p < (char*)out; ++p)
      if ((unsigned char)*p != G) { viol(key, what + FMT(": byte %ld before the output was written", (long)((char*)out - p)), FMT("size=%u", n)); return; }
    for (char* p = (char*)(out + n); p < hi; ++p)
      if ((unsigned char)*p != G) { viol(key, what + FMT(": byte %ld after the output was written", (long)(p - (char*)(out + n))), FMT("size=%u", n)); return; }
    if (run == 0) { first.assign(out, out + n); continue; }
    for (uint32_t i = 0; i < n; ++i) {
      T a = first[i], b = out[i];
      if (bits(a) != bits(b) && !(a != a && b != b)) {
        viol(key, what + FMT(": element %u depends on what the output held before, or was not written", i), FMT("size=%u", n));
        return;
      }
    }
  }
  if (n && memcmp(ref.data(), in, n * sizeof(T))) viol(key, what + ": input changed", FMT("size=%u", n));
  if (n && two && memcmp(ref2.data(), in2, n * sizeof(T))) viol(key, what + ": second input changed", FMT("size=%u", n));
  shapes.hit((std::min(n, 1023u) | end_in << 10 | end_out << 11 | offi << 12 | offo << 15) & 0xfffff);
}
template <class T> static void entry(const char* name, int id, bool two, std::function<void(uint32_t, const T*, const T*, T*)> call, uint64_t stream) {
  Source<T> src; src.init(id, o_lits);
  Rng g(o_seed, stream, 0);
  std::vector<T> vals;
  for (int i = 0; i < 5000; ++i) vals.push_back(g.below(6) ? src.one(g) : special_value<T>(g));
  uint64_t c0 = calls;
  shapes = Cells();
  // size 0: also with null pointers and with arrays that must not be touched at all
  if (!guarded<T>([&] { call(0, (const T*)0, (const T*)0, (T*)0); })) viol(std::string(name) + Sel<T>::suf() + "v", FMT("%s%sv(size 0, null pointers): memory fault at %p", name, Sel<T>::suf(), fault_at), "size=0");
  if (!guarded<T>([&] { call(0, (const T*)(A.base - 64), (const T*)(B.base - 64), (T*)(O.base - 64)); })) viol(std::string(name) + Sel<T>::suf() + "v", FMT("%s%sv(size 0, inaccessible arrays): memory fault", name, Sel<T>::suf()), "size=0");
  calls += 2;
  for (uint32_t n = 0; n <= 130; ++n)
    for (int m = 0; m < 4; ++m) shape<T>(name, two, call, g, vals, n, m & 1, m & 2, 0, 0);
  for (unsigned o = 0; o < 64; ++o)  // other alignments against the page
    shape<T>(name, two, call, g, vals, 1 + (uint32_t)g.below(80), g.u64() & 1, g.u64() & 1, o & 7, o >> 3);
  std::vector<uint32_t> big;
  for (int k = 8; k <= 17; ++k) { big.push_back((1u << k) - 1); big.push_back(1u << k); big.push_back((1u << k) + 1); }
  for (uint64_t i = 0; i < o_chunks; ++i) big.push_back(131 + (uint32_t)g.below(i % 8 ? 4000 : 200000));
  for (size_t i = 0; i < o_lits.size(); ++i)
    if (o_lits[i] == floor(o_lits[i]) && o_lits[i] > 130 && o_lits[i] < MAXN - 2) { big.push_back((uint32_t)o_lits[i]); big.push_back((uint32_t)o_lits[i] + 1); }
  for (size_t i = 0; i < big.size(); ++i) shape<T>(name, two, call, g, vals, big[i], g.u64() & 1, g.u64() & 1, 0, 0);
  rep_count(FMT("calls %s%sv", name, Sel<T>::suf()), calls - c0);
  rep_cell(FMT("shapes %s%sv", name, Sel<T>::suf()), shapes.count());
}
// Heap arrays of exact size, for builds with AddressSanitizer.
template <class T> static void heap(const char* name, int id, std::function<void(uint32_t, const T*, const T*, T*)> call, uint64_t stream) {
  Source<T> src; src.init(id, o_lits);
  Rng g(o_seed, stream, 1);
  uint64_t n_calls = 0;
  Cells sizes;
  for (uint64_t k = 0; k < 131 + o_chunks; ++k) {
    uint32_t n = k <= 130 ? (uint32_t)k : (uint32_t)g.below(3000);
    T* a = new T[n]; T* b = new T[n]; T* o = new T[n];
    for (uint32_t i = 0; i < n; ++i) { a[i] = g.below(6) ? src.one(g) : special_value<T>(g); b[i] = src.one(g); }
    call(n, a, b, o);
    ++n_calls;
    sizes.hit(n);
    delete[] a; delete[] b; delete[] o;
  }
  rep_count(FMT("heap calls %s%sv", name, Sel<T>::suf()), n_calls);
  rep_cell(FMT("heap sizes %s%sv", name, Sel<T>::suf()), sizes.count());
}
template <class T> static void all() {
  for (int i = 0; i < vdt_n_unary; ++i) {
    const Unary& u = vdt_unary[i];
    std::function<void(uint32_t, const T*, const T*, T*)> call = [&u](uint32_t n, const T* a, const T*, T* o) { Sel<T>::v(u)(n, a, o); };
    if (o_mode == "heap") heap<T>(u.name, id_of(u.name), call, 3000 + i);
    else entry<T>(u.name, id_of(u.name), false, call, 3000 + i);
  }
  for (int i = 0; i < vdt_n_binary; ++i) {
    const Binary& u = vdt_binary[i];
    std::function<void(uint32_t, const T*, const T*, T*)> call = [&u](uint32_t n, const T* a, const T* b, T* o) { Sel<T>::v(u)(n, a, b, o); };
    if (o_mode == "heap") heap<T>(u.name, NIDS, call, 3100 + i);
    else entry<T>(u.name, NIDS, true, call, 3100 + i);
  }
}
int main(int argc, char** argv) {
  parse_opts(argc, argv);
  if (o_mode != "heap") {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_fault;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, 0);
    sigaction(SIGBUS, &sa, 0);
    A.init(MAXN * 8); B.init(MAXN * 8); O.init(MAXN * 8);
  }
  if (o_only != "f") all<double>();
  if (o_only != "d") all<float>();
  if (o_mode != "heap") rep_sample(FMT("%llu guarded calls, %llu bytes of output and guards examined", (unsigned long long)calls, (unsigned long long)bytes_checked));
  rep_done();
  return 0;
}
