/* Stand-in for the NumPy headers: just what an extension that registers inner loops uses.
   A registered function becomes a tuple that the driver can call through ctypes. */
#ifndef VMON_NUMPY_STUB
#define VMON_NUMPY_STUB
#include <Python.h>
#include <stdint.h>
typedef Py_ssize_t npy_intp;
typedef float npy_float;
typedef double npy_double;
typedef unsigned char npy_bool;
enum NPY_TYPES { NPY_BOOL = 0, NPY_INT = 5, NPY_LONG = 7, NPY_FLOAT = 11, NPY_DOUBLE = 12 };
typedef void (*PyUFuncGenericFunction)(char** args, npy_intp* dimensions, npy_intp* steps, void* data);
enum { PyUFunc_None = -1, PyUFunc_Zero = 0, PyUFunc_One = 1 };
#define import_array() do { } while (0)
#define import_umath() do { } while (0)
#define import_ufunc() do { } while (0)
static PyObject* __attribute__((unused)) PyUFunc_FromFuncAndData(PyUFuncGenericFunction* f, void* const* data, const char* types, int ntypes, int nin, int nout, int identity, const char* name, const char* doc, int unused) {
  int i, j;
  PyObject* loops = PyList_New(0);
  (void)identity; (void)unused;
  for (i = 0; i < ntypes; ++i) {
    PyObject* t = PyList_New(0);
    for (j = 0; j < nin + nout; ++j) { PyObject* o = PyLong_FromLong(types[i * (nin + nout) + j]); PyList_Append(t, o); Py_DECREF(o); }
    PyObject* l = Py_BuildValue("(KKN)", (unsigned long long)(uintptr_t)f[i], (unsigned long long)(uintptr_t)data[i], t);
    PyList_Append(loops, l);
    Py_DECREF(l);
  }
  return Py_BuildValue("(siisN)", name, nin, nout, doc, loops);
}
#endif
