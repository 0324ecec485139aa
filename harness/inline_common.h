// Helpers of the generated kernels: arguments of the domain of a function, by plain arithmetic.
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <vector>
namespace {
template <class T> inline T squeeze(T v) { return v / (1 + (v < 0 ? -v : v)); }
template <class T> inline T dom_any(T v) { return squeeze(v) * 60; }
template <class T> inline T dom_unit(T v) { return squeeze(v); }
template <class T> inline T dom_trig(T v) { return squeeze(v) * 5000; }
template <class T> inline T dom_pos(T v) { T s = squeeze(v); return (s < 0 ? -s : s) * 100 + (T)0.01; }
template <class T> inline T dom_norm(T v) { return squeeze(v) * 100 + 101; }
}
