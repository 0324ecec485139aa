// Monitor of array functions on very long arrays. Most pages of an array are the same memory mapped over and over;
// pages at chosen places are memory of their own, so that what was read and written there can be examined.
#include "opts.h"
#include <csetjmp>
#include <csignal>
#include <sys/mman.h>
#include <unistd.h>

static __thread sigjmp_buf* jb = 0;
static __thread void* fault_at = 0;
static void on_fault(int sig, siginfo_t* si, void*) {
  if (!jb) { signal(sig, SIG_DFL); raise(sig); return; }
  fault_at = si->si_addr;
  siglongjmp(*jb, 1);
}
static void die(const char* what) { perror(what); exit(3); }

static const size_t PAGE = 4096, CHUNK = 4u << 20;
// n elements that end where an inaccessible page begins
template <class T> struct Long {
  char *map, *lo, *hi;
  size_t len;
  T* p;
  uint64_t n;
  std::vector<std::pair<uint64_t, uint64_t> > own;  // ranges of elements in memory of their own
  Long(uint64_t count, const std::vector<uint64_t>& places, bool output, std::function<T()> make) : n(count) {
    size_t bytes = n * sizeof(T), use = (bytes + CHUNK - 1) / CHUNK * CHUNK;
    len = use + 2 * PAGE;
    map = (char*)mmap(0, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (map == MAP_FAILED) die("mmap");
    lo = map + PAGE; hi = lo + use;
    int fd = memfd_create("long", 0);
    if (fd < 0 || ftruncate(fd, CHUNK)) die("memfd");
    for (char* q = lo; q < hi; q += CHUNK)
      if (mmap(q, CHUNK, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_POPULATE, fd, 0) == MAP_FAILED) die("mmap chunk");
    close(fd);
    p = (T*)hi - n;
    for (size_t i = 0; i < CHUNK / sizeof(T); ++i) ((T*)lo)[i] = make();
    uint64_t last = 0;
    for (size_t k = 0; k < places.size(); ++k) {
      char* a = (char*)((uintptr_t)(p + places[k]) & ~(uintptr_t)(PAGE - 1));
      a = std::max(lo, a - PAGE);
      char* b = std::min(hi, a + 3 * PAGE);
      uint64_t first = a <= (char*)p ? 0 : (uint64_t)(((T*)a) - p), end = (uint64_t)((T*)b - p);
      if (k && first < last) { first = last; a = (char*)(p + first); if (a >= b) continue; }
      if (mmap(a, b - a, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) die("mmap place");
      for (T* q = (T*)a; q < (T*)b; ++q) *q = make();
      own.push_back(std::make_pair(first, end));
      last = end;
    }
    if (!output) for (char* q = lo; q < hi; q += CHUNK) if (mprotect(q, CHUNK, PROT_READ)) die("mprotect");
  }
  ~Long() { munmap(map, len); }
};

static std::atomic<uint64_t> calls(0), examined(0), elements(0), before(0);
static bool values = true;
static std::mutex mx;
static Cells shapes;

template <class T> static void one(const std::string& name, int id, bool two, std::function<void(uint32_t, const T*, const T*, T*)> call, std::function<T(T, T)> scalar, uint64_t n, uint64_t stream) {
  Source<T> src; src.init(id, o_lits);
  Rng g(o_seed, stream, n);
  std::vector<T> vals;
  for (int i = 0; i < 4096; ++i) vals.push_back(g.below(12) ? src.one(g) : special_value<T>(g));
  std::vector<uint64_t> places;
  places.push_back(0);
  for (int k = 12; k < 32; ++k) if ((1ull << k) < n) places.push_back(1ull << k);
  for (int k = 0; k < 6; ++k) places.push_back(g.below(n));
  places.push_back(n - 1);
  std::sort(places.begin(), places.end());
  places.erase(std::unique(places.begin(), places.end()), places.end());
  std::function<T()> fill = [&] { return vals[g.below(4096)]; };
  Long<T> a(n, places, false, fill), b(two ? n : 1, two ? places : std::vector<uint64_t>(1, 0), false, fill), o(n, places, true, [] { return (T)77; });
  const std::string key = name + "v";
  const std::string what = FMT("%sv(size %llu)", name.c_str(), (unsigned long long)n);
  sigjmp_buf here;
  if (sigsetjmp(here, 1) == 0) { jb = &here; call((uint32_t)n, a.p, b.p, o.p); jb = 0; }
  else { jb = 0; viol(key, what + FMT(": memory fault at %p, arrays at %p and %p", fault_at, (void*)a.p, (void*)o.p), FMT("size=%llu", (unsigned long long)n)); return; }
  ++calls; elements += n;
  for (T* q = std::max((T*)o.lo, (T*)((uintptr_t)o.p & ~(uintptr_t)(PAGE - 1))); q < o.p; ++q) { ++before; if (!(*q == (T)77)) { viol(key, what + ": memory before the output was written", FMT("size=%llu", (unsigned long long)n)); return; } }
  for (size_t k = 0; k < o.own.size(); ++k)
    for (uint64_t i = o.own[k].first; i < o.own[k].second; ++i) {
      T r = scalar(a.p[i], two ? b.p[i] : (T)0), s = o.p[i];
      ++examined;
      bool same = bits(r) == bits(s) || (r != r && s != s);
      if (!same && (values || s == (T)77)) {
        viol(key, what + FMT(": element %llu for %.17g is %.17g%s, the scalar function gives %.17g", (unsigned long long)i, (double)a.p[i], (double)s, s == (T)77 ? " (what was there before)" : "", (double)r), FMT("size=%llu", (unsigned long long)n));
        return;
      }
    }
  std::lock_guard<std::mutex> l(mx);
  shapes.hit((uint32_t)(stream * 64 + (sizeof(T) == 8 ? 32 : 0) + (n >> 24 ? (int)log2((double)n) : 0)) & 0xfffff);
}
static std::vector<std::function<void()> > jobs;
template <class T> static void add(uint64_t n, std::function<bool(const char*)> wanted) {
  for (int i = 0; i < vdt_n_unary; ++i) {
    const Unary& u = vdt_unary[i];
    if (!wanted(u.name)) continue;
    jobs.push_back([&u, i, n] { one<T>(std::string(u.name) + Sel<T>::suf(), id_of(u.name), false, [&u](uint32_t m, const T* a, const T*, T* o) { Sel<T>::v(u)(m, a, o); }, [&u](T x, T) { return Sel<T>::s(u)(x); }, n, 100 + i); });
  }
  for (int i = 0; i < vdt_n_binary; ++i) {
    const Binary& u = vdt_binary[i];
    if (!wanted(u.name)) continue;
    jobs.push_back([&u, i, n] { one<T>(std::string(u.name) + Sel<T>::suf(), NIDS, true, [&u](uint32_t m, const T* a, const T* b, T* o) { Sel<T>::v(u)(m, a, b, o); }, [&u](T x, T y) { return Sel<T>::s(u)(x, y); }, n, 200 + i); });
  }
}
int main(int argc, char** argv) {
  parse_opts(argc, argv);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSEGV, &sa, 0);
  sigaction(SIGBUS, &sa, 0);
  values = o_mode != "footprint";
  Rng g(o_seed, 77, 0);
  auto all = [](const char*) { return true; };
  auto cheap = [](const char* n) { return !strncmp(n, "identity", 8); };
  auto one_fast = [](const char* n) { return !strcmp(n, "fast_approx_isqrt"); };
  const uint64_t over31 = 0x80000005ull + g.below(100), over24 = (1ull << 24) + 1 + g.below(60);
  if (o_chunks > 1) {
    add<double>(over31, all); add<float>(over31 + 1, all);
    add<double>(0xffffffffull, cheap); add<float>(0xffffffffull, all);
  } else { add<double>(over31, cheap); add<float>(over31 + 1, cheap); add<float>(over31 + 1, one_fast); }
  add<double>(over24, all); add<float>(over24 + 1, all);
  par(jobs.size(), [&](uint64_t j, unsigned) { jobs[j](); });
  rep_count("elements of long arrays examined", examined);
  rep_cell("(function, length class) of long arrays", shapes.count());
  rep_sample(FMT("%llu calls with 2^24 to 2^32 elements, %llu in all", (unsigned long long)calls, (unsigned long long)elements));
  rep_done();
  return 0;
}
