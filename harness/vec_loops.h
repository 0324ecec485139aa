// Loops of a user of the headers, compiled per build configuration.
#ifndef VMON_VEC_LOOPS_H
#define VMON_VEC_LOOPS_H
#include <stddef.h>
// Every loop reads x and y and writes o and p, as far as it needs them.
struct Loop {
  const char* name;
  const char* shape;
  void (*d)(size_t, const double*, const double*, double*, double*);
  void (*f)(size_t, const float*, const float*, float*, float*);
};
extern const Loop loops[];
extern const int n_loops;
#endif
