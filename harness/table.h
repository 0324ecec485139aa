// Function table of the library under test, compiled per build configuration.
#ifndef VMON_TABLE_H
#define VMON_TABLE_H
#include <stdint.h>

typedef double (*fn1d)(double);
typedef float (*fn1f)(float);
typedef double (*fn2d)(double, double);
typedef float (*fn2f)(float, float);
typedef void (*arr1d)(uint32_t, const double*, double*);
typedef void (*arr1f)(uint32_t, const float*, float*);
typedef void (*arr2d)(uint32_t, const double*, const double*, double*);
typedef void (*arr2f)(uint32_t, const float*, const float*, float*);

// "name" is the public name in double precision without any suffix.
struct Unary { const char* name; fn1d sd; fn1f sf; arr1d vd; arr1f vf; };
struct Binary { const char* name; fn2d sd; fn2f sf; arr2d vd; arr2f vf; };

extern const Unary vdt_unary[];
extern const int vdt_n_unary;
extern const Binary vdt_binary[];
extern const int vdt_n_binary;

extern void (*const vdt_sincos_d)(double, double&, double&);
extern void (*const vdt_sincos_f)(float, float&, float&);
#endif
