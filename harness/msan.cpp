// Uninitialised values in the fast functions, watched by MemorySanitizer (compiled with clang, all code instrumented).
// Outputs are poisoned before every call; afterwards no bit of them may depend on an uninitialised one.
#include "table.h"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <sanitizer/msan_interface.h>

static uint64_t state = 1;
static uint64_t rnd() {
  uint64_t z = (state += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static void put(double& x, uint64_t u) { memcpy(&x, &u, 8); }
static void put(float& x, uint64_t u) { uint32_t v = (uint32_t)(u >> 32); memcpy(&x, &v, 4); }
template <class T> static T value() {
  T x;
  switch (rnd() % 5) {
    case 0: put(x, rnd()); return x;
    case 1: return (T)((double)(int64_t)rnd() / 9.3e18);
    case 2: return (T)((double)(int64_t)rnd() / 9.3e18 * 700);
    case 3: return (T)((double)(int64_t)rnd() / 9.3e18 * 8000);
    default: {
      static const double s[] = {0, 1, -1, 0.5, -0.5, 1e-310, -1e-310, 1e308, -1e308, __builtin_inf(), -__builtin_inf(), __builtin_nan(""), 1e-40, 0.66, 2.5, 0.625};
      return (T)s[rnd() % 16];
    }
  }
}
static uint64_t calls = 0, cells = 0, shown = 0;
template <class T> static void judge(const char* name, const char* form, const T* p, size_t n, T a, T b) {
  // Plain stdio: the C++ library is not instrumented.
  if (__msan_test_shadow(p, n * sizeof(T)) != -1 && shown++ < 20)
    printf("{\"k\":\"viol\",\"key\":\"uninitialised value in %s%s\",\"text\":\"result of %s%s depends on an uninitialised value (arguments near %g, %g)\",\"replay\":\"seed\"}\n", name, form, name, form, (double)a, (double)b);
}
template <class T> struct S;
template <> struct S<double> { static fn1d s(const Unary& u) { return u.sd; } static arr1d v(const Unary& u) { return u.vd; } static fn2d s(const Binary& u) { return u.sd; } static arr2d v(const Binary& u) { return u.vd; } };
template <> struct S<float> { static fn1f s(const Unary& u) { return u.sf; } static arr1f v(const Unary& u) { return u.vf; } static fn2f s(const Binary& u) { return u.sf; } static arr2f v(const Binary& u) { return u.vf; } };

static volatile uint64_t sink;
static __attribute__((noinline)) void dirty() {  // uninitialised stack below the next call
  char buf[4096];
  __msan_allocated_memory(buf, sizeof buf);
  sink += (uintptr_t)&buf[sink % 16];
}
template <class T> static void run(int chunks, const char* suf) {
  char av[4];
  strcpy(av, suf); strcat(av, "v");
  for (int c = 0; c < chunks; ++c) {
    size_t n = 1 + rnd() % 40;
    T x[40], y[40], o[40];
    for (size_t i = 0; i < n; ++i) { x[i] = value<T>(); y[i] = value<T>(); }
    for (int k = 0; k < vdt_n_unary; ++k) {
      const Unary& u = vdt_unary[k];
      if (strncmp(u.name, "fast_", 5)) continue;
      for (size_t i = 0; i < n; ++i) { dirty(); T r = S<T>::s(u)(x[i]); ++calls; judge<T>(u.name, suf, &r, 1, x[i], 0); }
      __msan_allocated_memory(o, n * sizeof(T));
      S<T>::v(u)((uint32_t)n, x, o); ++calls;
      judge<T>(u.name, av, o, n, x[0], 0);
      if (c == 0) cells += 2;
    }
    for (int k = 0; k < vdt_n_binary; ++k) {
      const Binary& u = vdt_binary[k];
      if (strncmp(u.name, "fast_", 5)) continue;
      for (size_t i = 0; i < n; ++i) { dirty(); T r = S<T>::s(u)(x[i], y[i]); ++calls; judge<T>(u.name, suf, &r, 1, x[i], y[i]); }
      __msan_allocated_memory(o, n * sizeof(T));
      S<T>::v(u)((uint32_t)n, x, y, o); ++calls;
      judge<T>(u.name, av, o, n, x[0], y[0]);
      if (c == 0) cells += 2;
    }
  }
}
int main(int argc, char** argv) {
  int chunks = 10;
  for (int i = 1; i < argc; ++i) {
    if (!strncmp(argv[i], "--seed=", 7)) state = strtoull(argv[i] + 7, 0, 10) * 77777 + 5;
    if (!strncmp(argv[i], "--chunks=", 9)) chunks = atoi(argv[i] + 9);
  }
  run<double>(chunks, "");
  run<float>(chunks, "f");
  for (int c = 0; c < chunks * 40; ++c) {
    double s, k, x = value<double>(); float sf, kf, xf = value<float>();
    __msan_allocated_memory(&s, 8); __msan_allocated_memory(&k, 8); __msan_allocated_memory(&sf, 4); __msan_allocated_memory(&kf, 4);
    dirty(); vdt_sincos_d(x, s, k); judge<double>("fast_sincos", "", &s, 1, x, 0); judge<double>("fast_sincos", "", &k, 1, x, 0);
    dirty(); vdt_sincos_f(xf, sf, kf); judge<float>("fast_sincos", "f", &sf, 1, xf, 0); judge<float>("fast_sincos", "f", &kf, 1, xf, 0);
    calls += 2;
    if (c == 0) cells += 2;
  }
  printf("{\"k\":\"count\",\"name\":\"calls watched for uninitialised values\",\"n\":%llu}\n", (unsigned long long)calls);
  printf("{\"k\":\"cell\",\"name\":\"entry points watched for uninitialised values\",\"n\":%llu}\n{\"k\":\"done\"}\n", (unsigned long long)cells);
  return 0;
}
