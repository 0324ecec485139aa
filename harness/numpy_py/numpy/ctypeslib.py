import ctypes, os

c_intp = ctypes.c_ssize_t


def load_library(name, path):
    path = os.path.abspath(path)
    d = path if os.path.isdir(path) else os.path.dirname(path)
    for n in (name, name + ".so"):
        p = os.path.join(d, n)
        if os.path.exists(p):
            return ctypes.CDLL(p)
    raise OSError("no file with expected extension")


def ndpointer(dtype=None, ndim=None, shape=None, flags=None):
    want = flags.replace(" ", "").upper().split(",") if isinstance(flags, str) else [f.upper() for f in flags or []]
    for f in want:
        if f not in ("C_CONTIGUOUS", "CONTIGUOUS", "ALIGNED", "WRITEABLE", "A", "C", "W"):
            raise KeyError(f)

    class pointer:
        @classmethod
        def from_param(cls, obj):
            from . import ndarray
            if not isinstance(obj, ndarray):
                raise TypeError("argument must be an ndarray")
            if dtype is not None and obj.dtype is not dtype:
                raise TypeError("array must have data type %s" % dtype)
            if ndim is not None and obj.ndim != ndim or shape is not None and obj.shape != shape:
                raise TypeError("array must have another shape")
            if any(f in ("C_CONTIGUOUS", "CONTIGUOUS", "C") for f in want) and not obj.iscontiguous():
                raise TypeError("array must be contiguous")
            return obj._as_parameter_
    return pointer
